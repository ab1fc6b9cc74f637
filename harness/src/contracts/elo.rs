use super::common::*;
use crate::rt::*;
use skillratings::elo::*;
use skillratings::{Outcomes, Rating, RatingPeriodSystem, RatingSystem};

fn player(name: &str) -> EloRating {
    EloRating { rating: any_f64(name, -10000.0, 10000.0) }
}
fn config() -> EloConfig {
    EloConfig { k: any_f64("k", 0.0, 1000.0) }
}
fn results() -> Vec<(EloRating, Outcomes)> {
    any_vec("res", 0, MANY, |_| (player("o"), any_outcome("s")))
}
fn e(a: f64, b: f64) -> f64 {
    logistic(a, b, 400.0)
}

pub fn h_c01_elo() {
    let (x, y) = expected_score(&player("a"), &player("b"));
    probabilities(x, y);
}
pub fn h_c02_elo() {
    let a = player("a");
    let opp = any_vec("opp", 0, MANY, |_| player("o"));
    let r = expected_score_rating_period(&a, &opp);
    check_int_eq("one expectation per opponent", r.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("same as head to head", r[i], expected_score(&a, &opp[i]).0));
}
pub fn h_c03_elo() {
    let (a, b, c) = (player("a"), player("b"), config());
    let w = elo(&a, &b, &Outcomes::WIN, &c);
    let d = elo(&a, &b, &Outcomes::DRAW, &c);
    let l = elo(&a, &b, &Outcomes::LOSS, &c);
    ordered(w.0.rating, d.0.rating, l.0.rating);
    ordered(l.1.rating, d.1.rating, w.1.rating);
    check_le("winning does not cost rating", a.rating, w.0.rating);
    check_le("losing does not gain rating", l.0.rating, a.rating);
    check_le("winning does not cost rating", b.rating, l.1.rating);
    check_le("losing does not gain rating", w.1.rating, b.rating);
}
pub fn h_c04_elo() {
    let (a, b, c) = (player("a"), player("b"), config());
    let o = any_outcome("o");
    let (x, y) = elo(&a, &b, &o, &c);
    check_eq("the sum of both ratings is preserved", x.rating + y.rating, a.rating + b.rating);
    check_le("first player moves at most k", (x.rating - a.rating).abs(), c.k);
    check_le("second player moves at most k", (y.rating - b.rating).abs(), c.k);
}
pub fn h_c05_elo() {
    let (a, b, c) = (player("a"), player("b"), config());
    let o = any_outcome("o");
    let (x, y) = elo(&a, &b, &o, &c);
    let (y2, x2) = elo(&b, &a, &flip(o), &c);
    check_eq("first player", x.rating, x2.rating);
    check_eq("second player", y.rating, y2.rating);
    let (p, q) = expected_score(&a, &b);
    let (q2, p2) = expected_score(&b, &a);
    check_eq("first expectation", p, p2);
    check_eq("second expectation", q, q2);
}
pub fn h_c06_elo() {
    let (a, b, c) = (player("a"), player("b"), config());
    let o = any_outcome("o");
    let (x, y) = elo(&a, &b, &o, &c);
    check_eq("first rating", x.rating, a.rating + c.k * (score(o) - e(a.rating, b.rating)));
    check_eq("second rating", y.rating, b.rating + c.k * ((1.0 - score(o)) - e(b.rating, a.rating)));
    check_eq("expectation", expected_score(&a, &b).0, e(a.rating, b.rating));
}
pub fn h_c07_elo() {
    let (a, c) = (player("a"), config());
    let res = results();
    let n = elo_rating_period(&a, &res, &c);
    let mut r = a.rating;
    for (o, s) in &res {
        r += c.k * (score(*s) - e(r, o.rating));
    }
    check_eq("rating after all results", n.rating, r);
}
pub fn h_c08_elo_empty() {
    let (a, c) = (player("a"), config());
    check_eq("nothing played, nothing changed", elo_rating_period(&a, &[], &c).rating, a.rating);
}
pub fn h_c08_elo_one() {
    let (a, b, c) = (player("a"), player("b"), config());
    let o = any_outcome("o");
    check_eq("one result is one match", elo_rating_period(&a, &[(b, o)], &c).rating, elo(&a, &b, &o, &c).0.rating);
}
pub fn h_c08_elo_fold() {
    let (a, c) = (player("a"), config());
    let res = results();
    let n = elo_rating_period(&a, &res, &c);
    let mut r = a;
    for (o, s) in &res {
        r = elo(&r, o, s, &c).0;
    }
    check_eq("a period is its matches in order", n.rating, r.rating);
}
pub fn h_c14_elo() {
    let (a, c) = (player("a"), config());
    let b = player("b");
    let _ = elo(&a, &b, &any_outcome("o"), &c);
    let _ = expected_score(&a, &b);
    let res = results();
    let _ = elo_rating_period(&a, &res, &c);
    let opp = any_vec("opp", 0, MANY, |_| player("p"));
    let _ = expected_score_rating_period(&a, &opp);
}
pub fn h_c15_elo() {
    let (a, c) = (player("a"), config());
    let b = player("b");
    let (x, y) = elo(&a, &b, &any_outcome("o"), &c);
    check_finite("first rating", x.rating);
    check_finite("second rating", y.rating);
    let (p, q) = expected_score(&a, &b);
    check_finite("first expectation", p);
    check_finite("second expectation", q);
}
pub fn h_c15_elo_period() {
    let (a, c) = (player("a"), config());
    let res = any_vec("res", 0, 100, |_| (player("o"), any_outcome("s")));
    check_finite("rating", elo_rating_period(&a, &res, &c).rating);
}
pub fn h_c16_elo() {
    let (a, b, c) = (player("a"), player("b"), config());
    let o = any_outcome("o");
    let s: Elo = RatingSystem::new(c);
    let (x, y) = RatingSystem::rate(&s, &a, &b, &o);
    let (x2, y2) = elo(&a, &b, &o, &c);
    check_eq("rate, first", x.rating, x2.rating);
    check_eq("rate, second", y.rating, y2.rating);
    let (p, q) = RatingSystem::expected_score(&s, &a, &b);
    let (p2, q2) = expected_score(&a, &b);
    check_eq("expectation, first", p, p2);
    check_eq("expectation, second", q, q2);
}
pub fn h_c16_elo_period() {
    let (a, c) = (player("a"), config());
    let s: Elo = RatingPeriodSystem::new(c);
    let res = results();
    check_eq("rate", RatingPeriodSystem::rate(&s, &a, &res).rating, elo_rating_period(&a, &res, &c).rating);
    let opp = any_vec("opp", 0, MANY, |_| player("p"));
    let p = RatingPeriodSystem::expected_score(&s, &a, &opp);
    let q = expected_score_rating_period(&a, &opp);
    check_int_eq("one expectation per opponent", p.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("expectation", p[i], q[i]));
}
pub fn h_c17_elo() {
    check_eq("new", EloRating::new().rating, 1000.0);
    check_eq("default", EloRating::default().rating, 1000.0);
    check_eq("default k", EloConfig::new().k, 32.0);
    check_eq("default k", EloConfig::default().k, 32.0);
    let r = any_f64("r", -10000.0, 10000.0);
    let u = any_f64("u", 0.0, 1000.0);
    check_eq("from", EloRating::from(r).rating, r);
    let x: EloRating = Rating::new(Some(r), Some(u));
    check_eq("trait new", x.rating, r);
    check_eq("trait getter", Rating::rating(&x), r);
    check("no uncertainty", Rating::uncertainty(&x).is_none());
    let x: EloRating = Rating::new(None, None);
    check_eq("trait new without a rating", x.rating, 1000.0);
}
