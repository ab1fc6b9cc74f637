use super::common::*;
use crate::rt::*;
use skillratings::elo::EloRating;
use skillratings::ingo::*;
use skillratings::{Outcomes, Rating, RatingPeriodSystem, RatingSystem};

fn player(name: &str, age: &str) -> IngoRating {
    IngoRating { rating: any_f64(name, -1000.0, 1000.0), age: any_usize(age, 0, 1000) }
}
fn results() -> Vec<(IngoRating, Outcomes)> {
    any_vec("res", 0, MANY, |_| (player("o", "oage"), any_outcome("s")))
}
/// development coefficient by age
fn dev(age: usize) -> f64 {
    if age <= 20 {
        10.0
    } else if age <= 25 {
        15.0
    } else {
        20.0
    }
}
// lower is better in Ingo
fn after(r: f64, age: usize, games: f64, avg_opp: f64, avg_score: f64) -> f64 {
    let performance = avg_opp - (100.0 * avg_score - 50.0);
    (performance * games + r * dev(age)) / (games + dev(age))
}
fn e(a: f64, b: f64) -> f64 {
    (0.5 + (b - a) / 100.0).max(0.0).min(1.0)
}

pub fn h_c01_ingo() {
    let (x, y) = expected_score(&player("a", "aa"), &player("b", "ba"));
    probabilities(x, y);
}
pub fn h_c02_ingo() {
    let a = player("a", "aa");
    let opp = any_vec("opp", 0, MANY, |_| player("o", "oa"));
    let r = expected_score_rating_period(&a, &opp);
    check_int_eq("one expectation per opponent", r.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("same as head to head", r[i], expected_score(&a, &opp[i]).0));
}
pub fn h_c03_ingo() {
    let (a, b) = (player("a", "aa"), player("b", "ba"));
    let w = ingo(&a, &b, &Outcomes::WIN);
    let d = ingo(&a, &b, &Outcomes::DRAW);
    let l = ingo(&a, &b, &Outcomes::LOSS);
    // a lower number is a better rating
    ordered(-w.0.rating, -d.0.rating, -l.0.rating);
    ordered(-l.1.rating, -d.1.rating, -w.1.rating);
}
pub fn h_c05_ingo() {
    let (a, b) = (player("a", "aa"), player("b", "ba"));
    let o = any_outcome("o");
    let (x, y) = ingo(&a, &b, &o);
    let (y2, x2) = ingo(&b, &a, &flip(o));
    check_eq("first player", x.rating, x2.rating);
    check_eq("second player", y.rating, y2.rating);
    check_int_eq("first age", x.age, x2.age);
    check_int_eq("second age", y.age, y2.age);
    let (p, q) = expected_score(&a, &b);
    let (q2, p2) = expected_score(&b, &a);
    check_eq("first expectation", p, p2);
    check_eq("second expectation", q, q2);
}
pub fn h_c06_ingo() {
    let (a, b) = (player("a", "aa"), player("b", "ba"));
    let o = any_outcome("o");
    let (x, y) = ingo(&a, &b, &o);
    check_eq("first rating", x.rating, after(a.rating, a.age, 1.0, b.rating, score(o)));
    check_eq("second rating", y.rating, after(b.rating, b.age, 1.0, a.rating, 1.0 - score(o)));
    check_eq("expectation", expected_score(&a, &b).0, e(a.rating, b.rating));
}
pub fn h_c07_ingo() {
    let a = player("a", "aa");
    let res = results();
    assume(!res.is_empty());
    let n = ingo_rating_period(&a, &res);
    let mut pts = 0.0;
    let mut opp = 0.0;
    for (o, s) in &res {
        pts += score(*s);
        opp += o.rating;
    }
    let m = res.len() as f64;
    check_eq("average performance", n.rating, after(a.rating, a.age, m, opp / m, pts / m));
    check_int_eq("age is kept", n.age, a.age);
}
pub fn h_c08_ingo_empty() {
    let a = player("a", "aa");
    let n = ingo_rating_period(&a, &[]);
    check_eq("nothing played, nothing changed", n.rating, a.rating);
    check_int_eq("age is kept", n.age, a.age);
}
pub fn h_c08_ingo_one() {
    let (a, b) = (player("a", "aa"), player("b", "ba"));
    let o = any_outcome("o");
    check_eq("one result is one match", ingo_rating_period(&a, &[(b, o)]).rating, ingo(&a, &b, &o).0.rating);
}
pub fn h_c08_ingo_order() {
    let a = player("a", "aa");
    let s = results();
    let x = (player("x", "xa"), any_outcome("xo"));
    let y = (player("y", "ya"), any_outcome("yo"));
    let mut one = vec![x, y];
    one.extend(s.iter().copied());
    let mut two = vec![y, x];
    two.extend(s.iter().copied());
    check_eq("first two results exchanged", ingo_rating_period(&a, &one).rating, ingo_rating_period(&a, &two).rating);
    let mut three = vec![x];
    three.extend(s.iter().copied());
    let mut four = s.clone();
    four.push(x);
    check_eq("first result moved to the end", ingo_rating_period(&a, &three).rating, ingo_rating_period(&a, &four).rating);
}
pub fn h_c14_ingo() {
    let (a, b) = (player("a", "aa"), player("b", "ba"));
    let _ = ingo(&a, &b, &any_outcome("o"));
    let _ = expected_score(&a, &b);
    let res = results();
    let _ = ingo_rating_period(&a, &res);
    let opp = any_vec("opp", 0, MANY, |_| player("p", "pa"));
    let _ = expected_score_rating_period(&a, &opp);
}
pub fn h_c15_ingo() {
    let (a, b) = (player("a", "aa"), player("b", "ba"));
    let (x, y) = ingo(&a, &b, &any_outcome("o"));
    check_finite("first rating", x.rating);
    check_finite("second rating", y.rating);
    let (p, q) = expected_score(&a, &b);
    check_finite("first expectation", p);
    check_finite("second expectation", q);
}
pub fn h_c15_ingo_period() {
    let a = player("a", "aa");
    let res = results();
    check_finite("rating", ingo_rating_period(&a, &res).rating);
}
pub fn h_c16_ingo() {
    let (a, b) = (player("a", "aa"), player("b", "ba"));
    let o = any_outcome("o");
    let s: Ingo = RatingSystem::new(());
    let (x, y) = RatingSystem::rate(&s, &a, &b, &o);
    let (x2, y2) = ingo(&a, &b, &o);
    check_eq("rate, first", x.rating, x2.rating);
    check_eq("rate, second", y.rating, y2.rating);
    check_int_eq("rate, first age", x.age, x2.age);
    check_int_eq("rate, second age", y.age, y2.age);
    let (p, q) = RatingSystem::expected_score(&s, &a, &b);
    let (p2, q2) = expected_score(&a, &b);
    check_eq("expectation, first", p, p2);
    check_eq("expectation, second", q, q2);
}
pub fn h_c16_ingo_period() {
    let a = player("a", "aa");
    let s: Ingo = RatingPeriodSystem::new(());
    let res = results();
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &res), ingo_rating_period(&a, &res));
    check_eq("rate", x.rating, y.rating);
    check_int_eq("rate, age", x.age, y.age);
    let opp = any_vec("opp", 0, MANY, |_| player("p", "pa"));
    let p = RatingPeriodSystem::expected_score(&s, &a, &opp);
    let q = expected_score_rating_period(&a, &opp);
    check_int_eq("one expectation per opponent", p.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("expectation", p[i], q[i]));
}
pub fn h_c17_ingo() {
    let age = any_usize("age", 0, 1000);
    let x = IngoRating::new(age);
    check_eq("new", x.rating, 230.0);
    check_int_eq("new, age", x.age, age);
    let x = IngoRating::default();
    check_eq("default", x.rating, 230.0);
    check_int_eq("default, age", x.age, 26);
    let r = any_f64("r", -10000.0, 10000.0);
    let x = IngoRating::from((r, age));
    check_eq("from", x.rating, r);
    check_int_eq("from, age", x.age, age);
    let x = IngoRating::from(r);
    check_eq("from rating", x.rating, r);
    check_int_eq("from rating, age", x.age, 26);
    let x: IngoRating = Rating::new(Some(r), None);
    check_eq("trait new", x.rating, r);
    check_int_eq("trait new, age", x.age, 26);
    check_eq("trait getter", Rating::rating(&x), r);
    check("no uncertainty", Rating::uncertainty(&x).is_none());
    let x: IngoRating = Rating::new(None, None);
    check_eq("trait new without a rating", x.rating, 230.0);
    let x = IngoRating::from(EloRating { rating: r });
    check_eq("from Elo", x.rating, 355.0 - r / 8.0);
    check_eq("there and back", EloRating::from(x).rating, r);
}
pub fn h_c21_ingo() {
    let (a, b) = (player("a", "aa"), player("b", "ba"));
    let (x, y) = ingo(&a, &b, &any_outcome("o"));
    check_int_eq("first age is kept", x.age, a.age);
    check_int_eq("second age is kept", y.age, b.age);
    let res = results();
    check_int_eq("age is kept over a period", ingo_rating_period(&a, &res).age, a.age);
}
