//! A subscriber to the crate's logging, which formats everything it is given, and "looking": formatting
//! the crate's values. Both are switched per thread, and neither may make a difference.

use std::cell::Cell;
use std::fmt::{Debug, Display, Write};

use tracing::field::{Field, Visit};
use tracing::level_filters::LevelFilter;
use tracing::span::{Attributes, Id, Record};
use tracing::subscriber::Interest;
use tracing::{Event, Metadata, Subscriber};

/// How closely a case is watched.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Watch {
    pub level: LevelFilter,
    pub look: bool,
}

pub const NOT: Watch = Watch { level: LevelFilter::OFF, look: false };

impl Watch {
    pub fn level(n: u64) -> LevelFilter {
        match n % 6 {
            0 => LevelFilter::OFF,
            1 => LevelFilter::ERROR,
            2 => LevelFilter::WARN,
            3 => LevelFilter::INFO,
            4 => LevelFilter::DEBUG,
            _ => LevelFilter::TRACE,
        }
    }
}

thread_local! {
    static NOW: Cell<Watch> = const { Cell::new(NOT) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
    static LOOKS: Cell<u64> = const { Cell::new(0) };
}

/// Runs `f` watched like this; returns the numbers of events logged and values looked at as well.
pub fn watched<R>(w: Watch, f: impl FnOnce() -> R) -> (R, u64, u64) {
    struct Restore(Watch);
    impl Drop for Restore {
        fn drop(&mut self) {
            NOW.with(|n| n.set(self.0));
        }
    }
    let _restore = Restore(NOW.with(|n| n.replace(w)));
    let (e, l) = (EVENTS.with(Cell::get), LOOKS.with(Cell::get));
    let r = f();
    (r, EVENTS.with(Cell::get) - e, LOOKS.with(Cell::get) - l)
}

/// Formats a value, if this case is looked at.
pub fn look(v: &impl Debug) {
    if NOW.with(|n| n.get().look) {
        LOOKS.with(|l| l.set(l.get() + 1));
        let n = format!("{v:?}").len() + format!("{v:#?}").len();
        std::hint::black_box(n);
    }
}

pub fn show(v: &impl Display) {
    if NOW.with(|n| n.get().look) {
        std::hint::black_box(v.to_string());
    }
}

struct Reader;

struct Text(String);

impl Visit for Text {
    fn record_debug(&mut self, f: &Field, v: &dyn Debug) {
        let _ = write!(self.0, "{}={v:?} ", f.name());
    }
}

impl Subscriber for Reader {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        *m.level() <= NOW.try_with(|n| n.get().level).unwrap_or(LevelFilter::OFF)
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        let mut t = Text(String::new());
        a.record(&mut t);
        Id::from_u64(1)
    }
    fn record(&self, _: &Id, r: &Record<'_>) {
        r.record(&mut Text(String::new()));
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut t = Text(String::new());
        e.record(&mut t);
        std::hint::black_box(t.0.len());
        let _ = EVENTS.try_with(|n| n.set(n.get() + 1));
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

pub fn install() {
    let _ = tracing::subscriber::set_global_default(Reader);
}
