//! Coverage counters, filled in if the harness was built with `-C passes=sancov-module`, and a corpus
//! of inputs chosen by them.

use std::sync::Mutex;

static REGIONS: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

/// Called by instrumented modules when the process starts.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let mut r = REGIONS.lock().unwrap();
    let region = (start as usize, stop as usize);
    if start != stop && !r.contains(&region) {
        r.push(region);
    }
}

fn counters(mut f: impl FnMut(usize, *mut u8)) {
    let mut n = 0;
    for (start, stop) in REGIONS.lock().unwrap().iter() {
        for p in *start..*stop {
            f(n, p as *mut u8);
            n += 1;
        }
    }
}

/// Number of instrumented places.
pub fn places() -> usize {
    REGIONS.lock().unwrap().iter().map(|(a, b)| b - a).sum()
}

pub fn reset() {
    for (start, stop) in REGIONS.lock().unwrap().iter() {
        unsafe { std::ptr::write_bytes(*start as *mut u8, 0, stop - start) };
    }
}

/// What has been reached so far: for each place, how often, in powers of two.
#[derive(Default)]
pub struct Seen(Vec<u8>);

impl Seen {
    /// Adds what was reached since the last reset; returns how much of it is new.
    pub fn add(&mut self) -> usize {
        if self.0.is_empty() {
            self.0 = vec![0; places()];
        }
        let mut new = 0;
        counters(|i, p| {
            let c = unsafe { *p };
            if c != 0 {
                let bit = match c {
                    1 => 1,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128,
                };
                if self.0[i] & bit == 0 {
                    self.0[i] |= bit;
                    new += 1;
                }
            }
        });
        new
    }
    pub fn reached(&self) -> usize {
        self.0.iter().filter(|b| **b != 0).count()
    }
}

/// A small generator of random numbers, for mutations.
pub struct Dice(u64);

impl Dice {
    pub fn new(seed: u64) -> Dice {
        Dice(seed | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_f491_4f6c_dd1d)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() >> 16) as usize % n.max(1)
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| (self.next() >> 24) as u8).collect()
    }
}

/// Random decisions of a generator, as bytes.
pub fn mutate(d: &mut Dice, a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut v = a.to_vec();
    // Most decisions are taken near the beginning.
    let reach = |d: &mut Dice, len: usize| {
        let span = match d.below(4) {
            0 => len,
            1 => len.min(4096),
            2 => len.min(1024),
            _ => len.min(256),
        };
        d.below(span) & !3
    };
    for _ in 0..1 + d.below(4) {
        let i = reach(d, v.len());
        match d.below(8) {
            0..=2 => {
                // One decision.
                let w = d.next().to_le_bytes();
                let n = [4, 8][d.below(2)].min(v.len() - i);
                v[i..i + n].copy_from_slice(&w[..n]);
            }
            3 => {
                // Extreme decisions.
                let x = [0u8, 0xff, 0x7f, 0x80][d.below(4)];
                let n = [4, 8][d.below(2)].min(v.len() - i);
                v[i..i + n].fill(x);
            }
            4 => {
                let n = (d.below(64) & !3).min(v.len() - i);
                v.drain(i..i + n);
            }
            5 => {
                let n = 4 + (d.below(64) & !3);
                let x = d.bytes(n);
                v.splice(i..i, x);
            }
            6 => {
                // Something of the other input.
                let j = reach(d, b.len());
                let n = (4 + (d.below(512) & !3)).min(b.len() - j).min(v.len() - i);
                v[i..i + n].copy_from_slice(&b[j..j + n]);
            }
            _ => {
                // The rest anew.
                let n = v.len() - i;
                let x = d.bytes(n);
                v[i..].copy_from_slice(&x);
            }
        }
        if v.len() < 64 {
            let x = d.bytes(1024);
            v.extend(x);
        }
    }
    v
}
