//! Result of running one case.

/// A broken oracle, with the ids of the properties it expresses (`*` = all of them).
#[derive(Clone, Debug)]
pub struct Fail {
    pub tags: Vec<&'static str>,
    pub msg: String,
}

impl Fail {
    pub fn new(tags: &[&'static str], msg: impl Into<String>) -> Self {
        Fail { tags: tags.to_vec(), msg: msg.into() }
    }
    /// Something that breaks whatever is being checked (a panic, an endless loop).
    pub fn all(msg: impl Into<String>) -> Self {
        Fail::new(&["*"], msg)
    }
    pub fn concerns(&self, prop: &str) -> bool {
        self.tags.iter().any(|t| *t == "*" || *t == prop)
    }
}

/// What a passing case covered.
#[derive(Clone, Debug, Default)]
pub struct Info {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}

impl Info {
    pub fn class(&mut self, on: bool, name: &'static str) {
        if on && !self.classes.contains(&name) {
            self.classes.push(name);
        }
    }
}

pub type Res = Result<Info, Fail>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $tags:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::fail::Fail::new(&$tags, format!($($arg)*)));
        }
    };
}
