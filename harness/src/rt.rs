//! Contract language.  Every contract `h_*` is an ordinary Rust function: `any_*` introduce
//! universally quantified inputs (with their precondition range), `assume` adds a
//! precondition, `check*` states a postcondition.  The verifier gives these functions
//! their logical meaning; the bodies below are only used to *replay* an input natively
//! against the compiled crate (and to search for a failing input when a proof fails).
use skillratings::Outcomes;
use std::cell::RefCell;
use std::collections::HashMap;

pub struct AssumeFail;

pub struct Failure {
    pub label: String,
    pub detail: String,
}

pub struct Rt {
    pub rng: u64,
    pub fixed: HashMap<String, f64>,
    pub log: Vec<(String, f64)>,
    pub seen: HashMap<String, f64>,
    pub ctx: Vec<usize>,
    pub fails: Vec<Failure>,
    pub checks: u64,
    pub hints: Vec<f64>,
    pub style: u32,
    pub tol: f64,
}

thread_local! {
    pub static RT: RefCell<Rt> = RefCell::new(Rt {
        rng: 1, fixed: HashMap::new(), log: Vec::new(), seen: HashMap::new(), ctx: Vec::new(), fails: Vec::new(),
        checks: 0, hints: Vec::new(), style: 0, tol: 1e-8,
    });
}

impl Rt {
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.rng = self.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    fn key(&self, name: &str) -> String {
        if self.ctx.is_empty() {
            name.to_string()
        } else {
            let v: Vec<String> = self.ctx.iter().map(|i| i.to_string()).collect();
            format!("{}[{}]", name, v.join(","))
        }
    }
    fn real(&mut self, name: &str, lo: f64, hi: f64) -> f64 {
        let key = self.key(name);
        if let Some(v) = self.seen.get(&key) {
            return *v;
        }
        let v = match self.fixed.get(&key) {
            Some(v) => *v,
            None => self.draw(lo, hi),
        };
        self.seen.insert(key.clone(), v);
        self.log.push((key, v));
        v
    }
    fn draw(&mut self, lo: f64, hi: f64) -> f64 {
        let u = self.unit();
        let s = self.style % 4;
        if s != 3 {
            if u < 0.04 {
                return if self.below(2) == 0 { lo } else { hi };
            }
            if u < 0.22 && !self.hints.is_empty() {
                let i = self.below(self.hints.len() as u64) as usize;
                let mut c = self.hints[i];
                c += match self.below(10) {
                    0 | 1 | 2 => 0.0,
                    3 => 1e-3,
                    4 => -1e-3,
                    5 => 1.0,
                    6 => -1.0,
                    7 => 37.5,
                    8 => -37.5,
                    _ => 0.1,
                };
                if lo <= c && c <= hi {
                    return c;
                }
                if lo <= -c && -c <= hi {
                    return -c;
                }
            }
            if u < 0.45 && !self.log.is_empty() {
                let i = self.below(self.log.len() as u64) as usize;
                let c = self.log[i].1
                    + match self.below(12) {
                        0 | 1 => 0.0,
                        2 => 1.0,
                        3 => -1.0,
                        4 => 100.0,
                        5 => -100.0,
                        6 => 400.0,
                        7 => -400.0,
                        8 => 0.01,
                        9 => {
                            if self.hints.is_empty() {
                                10.0
                            } else {
                                let j = self.below(self.hints.len() as u64) as usize;
                                let h = self.hints[j];
                                if self.below(2) == 0 {
                                    h
                                } else {
                                    -h
                                }
                            }
                        }
                        _ => (self.unit() - 0.5) * 60.0,
                    };
                if lo <= c && c <= hi {
                    return c;
                }
            }
            if u < 0.6 && hi > 0.0 && lo >= 0.0 {
                let a = lo.max(hi * 1e-5).max(1e-6);
                let v = (a.ln() + self.unit() * (hi.ln() - a.ln())).exp();
                return v.max(lo).min(hi);
            }
            if u < 0.75 {
                // a round number
                let w = (hi - lo) / 50.0;
                let p = 10f64.powf(w.abs().max(1e-3).log10().floor());
                let v = ((lo + self.unit() * (hi - lo)) / p).round() * p;
                if lo <= v && v <= hi {
                    return v;
                }
            }
        }
        lo + self.unit() * (hi - lo)
    }
    fn int(&mut self, name: &str, lo: i64, hi: i64) -> i64 {
        let key = self.key(name);
        if let Some(v) = self.seen.get(&key) {
            return *v as i64;
        }
        let v = match self.fixed.get(&key) {
            Some(v) => (*v as i64).max(lo).min(hi),
            None => {
                let span = (hi - lo) as u64;
                if name.starts_with("len:") {
                    // now and then a long season (rating periods only)
                    if hi >= 100 && (name == "len:res" || name == "len:opp") && self.below(96) == 0 {
                        let m = lo + 40 + self.below(220) as i64;
                        return self.keep(key, m.min(hi));
                    }
                    let m = match self.below(16) {
                        0 | 1 => 0,
                        2 | 3 | 4 => 1,
                        5 | 6 | 7 => 2,
                        8 | 9 => 3,
                        10 => 4,
                        11 => 5,
                        12 => 6,
                        13 => 8 + self.below(12),
                        14 if !self.hints.is_empty() && self.below(2) == 0 => {
                            // a length the code compares with
                            let i = self.below(self.hints.len() as u64) as usize;
                            let h = self.hints[i];
                            if (2.0..=48.0).contains(&h) {
                                h as u64 + self.below(3) - 1
                            } else {
                                7
                            }
                        }
                        14 => 1 + self.below(40),
                        _ => 2 + self.below(9),
                    };
                    lo + m.min(span) as i64
                } else if span == 2 && !self.ctx.is_empty() && self.style % 7 == 5 && self.below(40) != 0 {
                    // a one-sided season
                    lo + (self.style / 7 % 3) as i64
                } else if span <= 12 {
                    lo + self.below(span + 1) as i64
                } else {
                    let r = self.below(10);
                    if r < 4 {
                        lo + self.below(span.min(12) + 1) as i64
                    } else if r < 7 {
                        lo + self.below(span.min(120) + 1) as i64
                    } else if r < 9 && !self.hints.is_empty() {
                        let i = self.below(self.hints.len() as u64) as usize;
                        let d = self.below(3) as i64 - 1;
                        let h = (self.hints[i].max(-1e15).min(1e15) as i64).saturating_add(d);
                        h.max(lo).min(hi)
                    } else {
                        lo + self.below(span.saturating_add(1).max(1)) as i64
                    }
                }
            }
        };
        self.keep(key, v)
    }
    fn keep(&mut self, key: String, v: i64) -> i64 {
        self.seen.insert(key.clone(), v as f64);
        self.log.push((key, v as f64));
        v
    }
    fn fail(&mut self, label: &str, detail: String) {
        self.fails.push(Failure { label: label.to_string(), detail });
    }
}

/// an arbitrary real in [lo, hi]
pub fn any_f64(name: &str, lo: f64, hi: f64) -> f64 {
    RT.with(|r| r.borrow_mut().real(name, lo, hi))
}
/// an arbitrary integer in [lo, hi]
pub fn any_usize(name: &str, lo: usize, hi: usize) -> usize {
    RT.with(|r| r.borrow_mut().int(name, lo as i64, hi as i64)) as usize
}
pub fn any_bool(name: &str) -> bool {
    RT.with(|r| r.borrow_mut().int(name, 0, 1)) == 1
}
pub fn any_outcome(name: &str) -> Outcomes {
    match RT.with(|r| r.borrow_mut().int(name, 0, 2)) {
        0 => Outcomes::WIN,
        1 => Outcomes::LOSS,
        _ => Outcomes::DRAW,
    }
}
/// an arbitrary sequence of length in [lo, hi] whose i-th element is f(i)
pub fn any_vec<T, F: Fn(usize) -> T>(name: &str, lo: usize, hi: usize, f: F) -> Vec<T> {
    let n = RT.with(|r| r.borrow_mut().int(&format!("len:{}", name), lo as i64, hi as i64)) as usize;
    let mut out = Vec::new();
    for i in 0..n {
        RT.with(|r| r.borrow_mut().ctx.push(i));
        out.push(f(i));
        RT.with(|r| r.borrow_mut().ctx.pop());
    }
    out
}
/// precondition
pub fn assume(c: bool) {
    if !c {
        std::panic::resume_unwind(Box::new(AssumeFail));
    }
}
/// postconditions
pub fn check(label: &str, c: bool) {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        r.checks += 1;
        if !c {
            r.fail(label, "condition is false".to_string());
        }
    })
}
fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * 1f64.max(a.abs()).max(b.abs()) || a == b
}
/// equality of reals
pub fn check_eq(label: &str, a: f64, b: f64) {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        r.checks += 1;
        let tol = r.tol;
        if !close(a, b, tol) {
            r.fail(label, format!("{:?} should equal {:?}", a, b));
        }
    })
}
/// equality of reals, native rounding allowance `tol` (relative)
pub fn check_eq_tol(label: &str, a: f64, b: f64, tol: f64) {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        r.checks += 1;
        if !close(a, b, tol) {
            r.fail(label, format!("{:?} should equal {:?}", a, b));
        }
    })
}
/// a <= b
pub fn check_le(label: &str, a: f64, b: f64) {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        r.checks += 1;
        let tol = r.tol;
        if !(a <= b || close(a, b, tol)) {
            r.fail(label, format!("{:?} should be <= {:?}", a, b));
        }
    })
}
/// a < b
pub fn check_lt(label: &str, a: f64, b: f64) {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        r.checks += 1;
        if !(a < b) {
            r.fail(label, format!("{:?} should be < {:?}", a, b));
        }
    })
}
pub fn check_finite(label: &str, a: f64) {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        r.checks += 1;
        if !a.is_finite() {
            r.fail(label, format!("{:?} should be finite", a));
        }
    })
}
pub fn check_int_eq(label: &str, a: usize, b: usize) {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        r.checks += 1;
        if a != b {
            r.fail(label, format!("{} should equal {}", a, b));
        }
    })
}
/// for all i < n
pub fn for_each_index<F: Fn(usize)>(n: usize, f: F) {
    for i in 0..n {
        f(i);
    }
}
/// true in a native replay
pub fn native_only() -> bool {
    true
}
