use super::common::*;
use crate::rt::*;
use skillratings::egf::*;
use skillratings::{Outcomes, Rating, RatingPeriodSystem, RatingSystem};

// the scale ends at 3300; a handicap of up to 9 stones shifts a player by up to 850 points
fn player(name: &str) -> EGFRating {
    EGFRating { rating: any_f64(name, -900.0, 2440.0) }
}
fn config() -> EGFConfig {
    EGFConfig { handicap: any_f64("h", -9.0, 9.0) }
}
fn results() -> Vec<(EGFRating, Outcomes, EGFConfig)> {
    any_vec("res", 0, MANY, |_| (player("o"), any_outcome("s"), EGFConfig { handicap: any_f64("rh", -9.0, 9.0) }))
}
/// rating shift for handicap stones
fn shift(h: f64) -> f64 {
    if h == 0.0 {
        0.0
    } else {
        100.0 * (h - 0.5)
    }
}
fn beta(r: f64) -> f64 {
    -7.0 * (3300.0 - r).ln()
}
fn e(a: f64, b: f64, h: f64) -> f64 {
    let x = if h < 0.0 { a + shift(-h) } else { a };
    let y = if h < 0.0 { b } else { b + shift(h) };
    1.0 / (1.0 + (beta(y) - beta(x)).exp())
}
fn change(r: f64, s: f64, exp: f64) -> f64 {
    let con = ((3300.0 - r) / 200.0).powf(1.6);
    let bonus = (1.0 + ((2300.0 - r) / 80.0).exp()).ln() / 5.0;
    con * (s - exp) + bonus
}

pub fn h_c01_egf() {
    let (x, y) = expected_score(&player("a"), &player("b"), &config());
    probabilities(x, y);
}
pub fn h_c02_egf() {
    let a = player("a");
    let opp = any_vec("opp", 0, MANY, |_| (player("o"), EGFConfig { handicap: any_f64("rh", -9.0, 9.0) }));
    let r = expected_score_rating_period(&a, &opp);
    check_int_eq("one expectation per opponent", r.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("same as head to head", r[i], expected_score(&a, &opp[i].0, &opp[i].1).0));
}
pub fn h_c03_egf() {
    let (a, b, c) = (player("a"), player("b"), config());
    let w = egf(&a, &b, &Outcomes::WIN, &c);
    let d = egf(&a, &b, &Outcomes::DRAW, &c);
    let l = egf(&a, &b, &Outcomes::LOSS, &c);
    ordered(w.0.rating, d.0.rating, l.0.rating);
    ordered(l.1.rating, d.1.rating, w.1.rating);
    check_le("winning does not cost rating", a.rating, w.0.rating);
    check_le("winning does not cost rating", b.rating, l.1.rating);
}
pub fn h_c05_egf() {
    let (a, b, c) = (player("a"), player("b"), config());
    let o = any_outcome("o");
    let m = EGFConfig { handicap: -c.handicap };
    let (x, y) = egf(&a, &b, &o, &c);
    let (y2, x2) = egf(&b, &a, &flip(o), &m);
    check_eq("first player", x.rating, x2.rating);
    check_eq("second player", y.rating, y2.rating);
    let (p, q) = expected_score(&a, &b, &c);
    let (q2, p2) = expected_score(&b, &a, &m);
    check_eq("first expectation", p, p2);
    check_eq("second expectation", q, q2);
}
pub fn h_c06_egf() {
    let (a, b, c) = (player("a"), player("b"), config());
    let o = any_outcome("o");
    let p = e(a.rating, b.rating, c.handicap);
    let (x, y) = egf(&a, &b, &o, &c);
    check_eq("first rating", x.rating, (a.rating + change(a.rating, score(o), p)).max(-900.0));
    check_eq("second rating", y.rating, (b.rating + change(b.rating, 1.0 - score(o), 1.0 - p)).max(-900.0));
    check_eq("expectation", expected_score(&a, &b, &c).0, p);
}
pub fn h_c07_egf() {
    let a = player("a");
    let res = results();
    let n = egf_rating_period(&a, &res);
    let mut sum = 0.0;
    for (o, s, c) in &res {
        let p = e(a.rating, o.rating, c.handicap);
        sum += (a.rating + change(a.rating, score(*s), p)).max(-900.0) - a.rating;
    }
    check_eq("all changes from the rating before the period", n.rating, (a.rating + sum).max(-900.0));
}
pub fn h_c08_egf_empty() {
    let a = player("a");
    check_eq("nothing played, nothing changed", egf_rating_period(&a, &[]).rating, a.rating);
}
pub fn h_c08_egf_one() {
    let (a, b, c) = (player("a"), player("b"), config());
    let o = any_outcome("o");
    check_eq("one result is one match", egf_rating_period(&a, &[(b, o, c)]).rating, egf(&a, &b, &o, &c).0.rating);
}
pub fn h_c08_egf_order() {
    let a = player("a");
    let s = results();
    let x = (player("x"), any_outcome("xo"), EGFConfig { handicap: any_f64("xh", -9.0, 9.0) });
    let y = (player("y"), any_outcome("yo"), EGFConfig { handicap: any_f64("yh", -9.0, 9.0) });
    let mut one = vec![x, y];
    one.extend(s.iter().copied());
    let mut two = vec![y, x];
    two.extend(s.iter().copied());
    check_eq("first two results exchanged", egf_rating_period(&a, &one).rating, egf_rating_period(&a, &two).rating);
    let mut three = vec![x];
    three.extend(s.iter().copied());
    let mut four = s.clone();
    four.push(x);
    check_eq("first result moved to the end", egf_rating_period(&a, &three).rating, egf_rating_period(&a, &four).rating);
}
pub fn h_c10_egf() {
    let (a, b, c) = (player("a"), player("b"), config());
    let (x, y) = egf(&a, &b, &any_outcome("o"), &c);
    check_le("never below -900, first", -900.0, x.rating);
    check_le("never below -900, second", -900.0, y.rating);
}
pub fn h_c10_egf_period() {
    let a = player("a");
    let res = results();
    check_le("never below -900 in a period", -900.0, egf_rating_period(&a, &res).rating);
}
pub fn h_c14_egf() {
    let (a, b, c) = (player("a"), player("b"), config());
    let _ = egf(&a, &b, &any_outcome("o"), &c);
    let _ = expected_score(&a, &b, &c);
    let res = results();
    let _ = egf_rating_period(&a, &res);
    let opp = any_vec("opp", 0, MANY, |_| (player("p"), c));
    let _ = expected_score_rating_period(&a, &opp);
}
pub fn h_c15_egf() {
    let (a, b, c) = (player("a"), player("b"), config());
    let (x, y) = egf(&a, &b, &any_outcome("o"), &c);
    check_finite("first rating", x.rating);
    check_finite("second rating", y.rating);
    let (p, q) = expected_score(&a, &b, &c);
    check_finite("first expectation", p);
    check_finite("second expectation", q);
}
pub fn h_c15_egf_period() {
    let a = player("a");
    let res = results();
    check_finite("rating", egf_rating_period(&a, &res).rating);
}
pub fn h_c16_egf() {
    let (a, b, c) = (player("a"), player("b"), config());
    let o = any_outcome("o");
    let s: EGF = RatingSystem::new(c);
    let (x, y) = RatingSystem::rate(&s, &a, &b, &o);
    let (x2, y2) = egf(&a, &b, &o, &c);
    check_eq("rate, first", x.rating, x2.rating);
    check_eq("rate, second", y.rating, y2.rating);
    let (p, q) = RatingSystem::expected_score(&s, &a, &b);
    let (p2, q2) = expected_score(&a, &b, &c);
    check_eq("expectation, first", p, p2);
    check_eq("expectation, second", q, q2);
}
pub fn h_c16_egf_period() {
    let (a, c) = (player("a"), config());
    let s: EGF = RatingPeriodSystem::new(c);
    let res = any_vec("res", 0, MANY, |_| (player("o"), any_outcome("s")));
    let full: Vec<(EGFRating, Outcomes, EGFConfig)> = res.iter().map(|(o, s)| (*o, *s, c)).collect();
    check_eq("rate", RatingPeriodSystem::rate(&s, &a, &res).rating, egf_rating_period(&a, &full).rating);
    let opp = any_vec("opp", 0, MANY, |_| player("p"));
    let fopp: Vec<(EGFRating, EGFConfig)> = opp.iter().map(|o| (*o, c)).collect();
    let p = RatingPeriodSystem::expected_score(&s, &a, &opp);
    let q = expected_score_rating_period(&a, &fopp);
    check_int_eq("one expectation per opponent", p.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("expectation", p[i], q[i]));
}
pub fn h_c17_egf() {
    check_eq("new", EGFRating::new().rating, 0.0);
    check_eq("default", EGFRating::default().rating, 0.0);
    check_eq("default handicap", EGFConfig::new().handicap, 0.0);
    check_eq("default handicap", EGFConfig::default().handicap, 0.0);
    let r = any_f64("r", -900.0, 3300.0);
    check_eq("from", EGFRating::from(r).rating, r);
    let x: EGFRating = Rating::new(Some(r), None);
    check_eq("trait new", x.rating, r);
    check_eq("trait getter", Rating::rating(&x), r);
    check("no uncertainty", Rating::uncertainty(&x).is_none());
    let x: EGFRating = Rating::new(None, None);
    check_eq("trait new without a rating", x.rating, 0.0);
}
