use super::common::*;
use crate::rt::*;
use skillratings::dwz::*;
use skillratings::elo::EloRating;
use skillratings::{Outcomes, Rating, RatingPeriodSystem, RatingSystem};

fn player(name: &str, index: &str, age: &str) -> DWZRating {
    DWZRating { rating: any_f64(name, 0.0, 4000.0), index: any_usize(index, 0, 1 << 20), age: any_usize(age, 0, 1000) }
}
fn results() -> Vec<(DWZRating, Outcomes)> {
    any_vec("res", 0, MANY, |_| (player("o", "oi", "oa"), any_outcome("s")))
}
fn e(a: f64, b: f64) -> f64 {
    logistic(a, b, 400.0)
}
/// development coefficient
fn dev(r: f64, age: usize, index: usize, s: f64, exp: f64) -> f64 {
    let j = if age <= 20 {
        5.0
    } else if age <= 25 {
        10.0
    } else {
        15.0
    };
    let base = (r / 1000.0) * (r / 1000.0) * (r / 1000.0) * (r / 1000.0) + j;
    let fast = if age < 20 && s >= exp { r / 2000.0 } else { 1.0 };
    let brake = if r < 1300.0 && s <= exp { ((1300.0 - r) / 150.0).exp() - 1.0 } else { 0.0 };
    let d = base * fast + brake;
    let top = if r < 1300.0 && s <= exp {
        150.0
    } else {
        let t = 5.0 * index as f64;
        if t < 5.0 {
            5.0
        } else if t > 30.0 {
            30.0
        } else {
            t
        }
    };
    if d <= 5.0 {
        5.0
    } else if d >= top {
        top
    } else {
        d
    }
}
fn after(p: &DWZRating, games: f64, s: f64, exp: f64) -> f64 {
    p.rating + 800.0 / (dev(p.rating, p.age, p.index, s, exp) + games) * (s - exp)
}

pub fn h_c01_dwz() {
    let (x, y) = expected_score(&player("a", "ai", "aa"), &player("b", "bi", "ba"));
    probabilities(x, y);
}
pub fn h_c02_dwz() {
    let a = player("a", "ai", "aa");
    let opp = any_vec("opp", 0, MANY, |_| player("o", "oi", "oa"));
    let r = expected_score_rating_period(&a, &opp);
    check_int_eq("one expectation per opponent", r.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("same as head to head", r[i], expected_score(&a, &opp[i]).0));
}
pub fn h_c03_dwz() {
    let (a, b) = (player("a", "ai", "aa"), player("b", "bi", "ba"));
    let w = dwz(&a, &b, &Outcomes::WIN);
    let d = dwz(&a, &b, &Outcomes::DRAW);
    let l = dwz(&a, &b, &Outcomes::LOSS);
    ordered(w.0.rating, d.0.rating, l.0.rating);
    ordered(l.1.rating, d.1.rating, w.1.rating);
    check_le("winning does not cost rating", a.rating, w.0.rating);
    check_le("losing does not gain rating", l.0.rating, a.rating);
    check_le("winning does not cost rating", b.rating, l.1.rating);
    check_le("losing does not gain rating", w.1.rating, b.rating);
}
pub fn h_c05_dwz() {
    let (a, b) = (player("a", "ai", "aa"), player("b", "bi", "ba"));
    let o = any_outcome("o");
    let (x, y) = dwz(&a, &b, &o);
    let (y2, x2) = dwz(&b, &a, &flip(o));
    check_eq("first player", x.rating, x2.rating);
    check_eq("second player", y.rating, y2.rating);
    check_int_eq("first index", x.index, x2.index);
    check_int_eq("second index", y.index, y2.index);
    check_int_eq("first age", x.age, x2.age);
    check_int_eq("second age", y.age, y2.age);
    let (p, q) = expected_score(&a, &b);
    let (q2, p2) = expected_score(&b, &a);
    check_eq("first expectation", p, p2);
    check_eq("second expectation", q, q2);
}
pub fn h_c06_dwz() {
    let (a, b) = (player("a", "ai", "aa"), player("b", "bi", "ba"));
    let o = any_outcome("o");
    let (x, _) = dwz(&a, &b, &o);
    let p = e(a.rating, b.rating);
    check_eq("first rating", x.rating, after(&a, 1.0, score(o), p));
    check_eq("expectation", expected_score(&a, &b).0, p);
}
pub fn h_c06_dwz_second() {
    let (a, b) = (player("a", "ai", "aa"), player("b", "bi", "ba"));
    let o = any_outcome("o");
    let (_, y) = dwz(&a, &b, &o);
    check_eq("second rating", y.rating, after(&b, 1.0, 1.0 - score(o), 1.0 - e(a.rating, b.rating)));
}
fn period(lo: usize, hi: usize) {
    let a = DWZRating { rating: any_f64("a", 0.0, 4000.0), index: any_usize("ai", 0, 1 << 20), age: any_usize("aa", lo, hi) };
    let res = results();
    let n = dwz_rating_period(&a, &res);
    let mut s = 0.0;
    let mut exp = 0.0;
    for (o, r) in &res {
        s += score(*r);
        exp += e(a.rating, o.rating);
    }
    check_eq("rating", n.rating, after(&a, res.len() as f64, s, exp));
}
pub fn h_c07_dwz() {
    period(0, 19);
}
pub fn h_c07_dwz_twenty() {
    period(20, 20);
}
pub fn h_c07_dwz_junior() {
    period(21, 25);
}
pub fn h_c07_dwz_adult() {
    period(26, 1000);
}
pub fn h_c08_dwz_empty() {
    let a = player("a", "ai", "aa");
    check_eq("nothing played, rating unchanged", dwz_rating_period(&a, &[]).rating, a.rating);
}
pub fn h_c08_dwz_one() {
    let (a, b) = (player("a", "ai", "aa"), player("b", "bi", "ba"));
    let o = any_outcome("o");
    let (x, y) = (dwz_rating_period(&a, &[(b, o)]), dwz(&a, &b, &o).0);
    check_eq("one result is one match", x.rating, y.rating);
    check_int_eq("index", x.index, y.index);
    check_int_eq("age", x.age, y.age);
}
pub fn h_c08_dwz_order() {
    let a = player("a", "ai", "aa");
    let s = results();
    let x = (player("x", "xi", "xa"), any_outcome("xo"));
    let y = (player("y", "yi", "ya"), any_outcome("yo"));
    let mut one = vec![x, y];
    one.extend(s.iter().copied());
    let mut two = vec![y, x];
    two.extend(s.iter().copied());
    check_eq("first two results exchanged", dwz_rating_period(&a, &one).rating, dwz_rating_period(&a, &two).rating);
    let mut three = vec![x];
    three.extend(s.iter().copied());
    let mut four = s.clone();
    four.push(x);
    check_eq("first result moved to the end", dwz_rating_period(&a, &three).rating, dwz_rating_period(&a, &four).rating);
}
pub fn h_c14_dwz() {
    let (a, b) = (player("a", "ai", "aa"), player("b", "bi", "ba"));
    let _ = dwz(&a, &b, &any_outcome("o"));
    let _ = expected_score(&a, &b);
    let res = results();
    let _ = dwz_rating_period(&a, &res);
    let opp = any_vec("opp", 0, MANY, |_| player("p", "pi", "pa"));
    let _ = expected_score_rating_period(&a, &opp);
}
pub fn h_c14_dwz_first() {
    let res = results();
    let _ = get_first_dwz(any_usize("age", 0, 1000), &res);
}
pub fn h_c15_dwz() {
    let (a, b) = (player("a", "ai", "aa"), player("b", "bi", "ba"));
    let (x, y) = dwz(&a, &b, &any_outcome("o"));
    check_finite("first rating", x.rating);
    check_finite("second rating", y.rating);
    let (p, q) = expected_score(&a, &b);
    check_finite("first expectation", p);
    check_finite("second expectation", q);
}
pub fn h_c15_dwz_period() {
    let a = player("a", "ai", "aa");
    let res = results();
    check_finite("rating", dwz_rating_period(&a, &res).rating);
}
pub fn h_c15_dwz_first() {
    let res = results();
    if let Ok(x) = get_first_dwz(any_usize("age", 0, 1000), &res) {
        check_finite("rating", x.rating);
    }
}
pub fn h_c16_dwz() {
    let (a, b) = (player("a", "ai", "aa"), player("b", "bi", "ba"));
    let o = any_outcome("o");
    let s: DWZ = RatingSystem::new(());
    let (x, y) = RatingSystem::rate(&s, &a, &b, &o);
    let (x2, y2) = dwz(&a, &b, &o);
    check_eq("rate, first", x.rating, x2.rating);
    check_eq("rate, second", y.rating, y2.rating);
    check_int_eq("rate, first index", x.index, x2.index);
    check_int_eq("rate, second index", y.index, y2.index);
    check_int_eq("rate, first age", x.age, x2.age);
    check_int_eq("rate, second age", y.age, y2.age);
    let (p, q) = RatingSystem::expected_score(&s, &a, &b);
    let (p2, q2) = expected_score(&a, &b);
    check_eq("expectation, first", p, p2);
    check_eq("expectation, second", q, q2);
}
pub fn h_c16_dwz_period() {
    let a = player("a", "ai", "aa");
    let s: DWZ = RatingPeriodSystem::new(());
    let res = results();
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &res), dwz_rating_period(&a, &res));
    check_eq("rate", x.rating, y.rating);
    check_int_eq("rate, index", x.index, y.index);
    check_int_eq("rate, age", x.age, y.age);
    let opp = any_vec("opp", 0, MANY, |_| player("p", "pi", "pa"));
    let p = RatingPeriodSystem::expected_score(&s, &a, &opp);
    let q = expected_score_rating_period(&a, &opp);
    check_int_eq("one expectation per opponent", p.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("expectation", p[i], q[i]));
}
pub fn h_c17_dwz() {
    let age = any_usize("age", 0, 1000);
    let index = any_usize("index", 0, 1 << 20);
    let r = any_f64("r", -10000.0, 10000.0);
    let x = DWZRating::new(age);
    check_eq("new", x.rating, 1000.0);
    check_int_eq("new, index", x.index, 1);
    check_int_eq("new, age", x.age, age);
    let x = DWZRating::default();
    check_eq("default", x.rating, 1000.0);
    check_int_eq("default, index", x.index, 1);
    check_int_eq("default, age", x.age, 26);
    let x = DWZRating::from((r, index, age));
    check_eq("from triple", x.rating, r);
    check_int_eq("from triple, index", x.index, index);
    check_int_eq("from triple, age", x.age, age);
    let x = DWZRating::from((r, index));
    check_eq("from pair", x.rating, r);
    check_int_eq("from pair, index", x.index, index);
    check_int_eq("from pair, age", x.age, 26);
    let x: DWZRating = Rating::new(Some(r), None);
    check_eq("trait new", x.rating, r);
    check_int_eq("trait new, index", x.index, 1);
    check_int_eq("trait new, age", x.age, 26);
    check_eq("trait getter", Rating::rating(&x), r);
    check("no uncertainty", Rating::uncertainty(&x).is_none());
    let x: DWZRating = Rating::new(None, None);
    check_eq("trait new without a rating", x.rating, 1000.0);
    let x = DWZRating::from(EloRating { rating: r });
    check_eq("from Elo", x.rating, r);
    check_int_eq("from Elo, index", x.index, 6);
    check_int_eq("from Elo, age", x.age, 26);
    check_eq("there and back", EloRating::from(x).rating, r);
}
/// official probability table for 0..=50 percent (rating difference), 51..=100 is its mirror image
const TABLE: [f64; 51] = [
    -728., -614., -555., -513., -480., -453., -429., -408., -389., -371., -355., -340., -326., -312., -300., -288., -276., -265., -254.,
    -244., -234., -224., -214., -205., -196., -187., -178., -170., -161., -153., -145., -137., -129., -121., -113., -106., -98., -91., -83.,
    -76., -69., -61., -54., -47., -40., -32., -25., -18., -11., -4., 0.,
];
pub fn h_c18_dwz_errors() {
    let res = results();
    let mut pts = 0.0;
    for (_, s) in &res {
        pts += score(*s);
    }
    let n = res.len();
    let r = get_first_dwz(any_usize("age", 0, 1000), &res);
    if n < 5 {
        check("fewer than five games are refused", r == Err(GetFirstDWZError::NotEnoughGames));
    } else if pts == 0.0 || pts == n as f64 {
        check("all lost or all won is refused", r == Err(GetFirstDWZError::InvalidWinRate));
    } else {
        check("otherwise there is a first rating", r.is_ok());
    }
}
pub fn h_c18_dwz_value() {
    let res = results();
    assume(res.len() >= 5);
    let mut pts = 0.0;
    let mut opp = 0.0;
    for (o, s) in &res {
        pts += score(*s);
        opp += o.rating;
    }
    let n = res.len() as f64;
    let age = any_usize("age", 0, 1000);
    if let Ok(x) = get_first_dwz(age, &res) {
        let pct = ((pts / n) * 100.0).round() as i64;
        let d = if pct > 50 { -TABLE[(100 - pct) as usize] } else { TABLE[pct as usize] };
        let perf = opp / n + d;
        let expect = if perf <= 800.0 { 700.0 + perf / 8.0 } else { perf };
        check_eq("performance rating", x.rating, expect);
        check_int_eq("index", x.index, 1);
        check_int_eq("age", x.age, age);
    }
}
pub fn h_c21_dwz() {
    let (a, b) = (player("a", "ai", "aa"), player("b", "bi", "ba"));
    let (x, y) = dwz(&a, &b, &any_outcome("o"));
    check_int_eq("first age is kept", x.age, a.age);
    check_int_eq("second age is kept", y.age, b.age);
    check_int_eq("first index advances by one", x.index, a.index + 1);
    check_int_eq("second index advances by one", y.index, b.index + 1);
    let res = results();
    let z = dwz_rating_period(&a, &res);
    check_int_eq("age is kept over a period", z.age, a.age);
    check_int_eq("index advances by one per period", z.index, a.index + 1);
}
