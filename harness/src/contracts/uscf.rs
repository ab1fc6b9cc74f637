use super::common::*;
use crate::rt::*;
use skillratings::elo::EloRating;
use skillratings::uscf::*;
use skillratings::{Outcomes, Rating, RatingPeriodSystem, RatingSystem};

fn player(name: &str, games: &str) -> USCFRating {
    USCFRating { rating: any_f64(name, 100.0, 4000.0), games: any_usize(games, 0, 1 << 20) }
}
fn config() -> USCFConfig {
    USCFConfig { t: any_f64("t", 0.0, 100.0) }
}
fn results() -> Vec<(USCFRating, Outcomes)> {
    any_vec("res", 0, MANY, |_| (player("o", "og"), any_outcome("s")))
}
fn e(a: f64, b: f64) -> f64 {
    logistic(a, b, 400.0)
}
/// up to eight games played: performance average
fn provisional(r: f64, games: f64, n: f64, avg_opp: f64, surplus: f64) -> f64 {
    (games * r + n * avg_opp + 400.0 * surplus) / (games + n)
}
/// effective number of games
fn effective(r: f64, games: f64) -> f64 {
    let m = if r < 2355.0 { 50.0 / (0.662 + 0.00000739 * (2569.0 - r) * (2569.0 - r)).sqrt() } else { 50.0 };
    m.min(games).min(50.0)
}
fn established(r: f64, games: f64, n: usize, s: f64, exp: f64, t: f64) -> f64 {
    let k = 800.0 / (effective(r, games) + n as f64);
    let gain = k * (s - exp);
    let m = if n > 4 { 4.0 } else { n as f64 };
    let threshold = t * m.sqrt();
    let boost = if n >= 3 && gain > threshold { gain - threshold } else { 0.0 };
    r + gain + boost
}
fn one(p: &USCFRating, opp: f64, s: f64, t: f64) -> f64 {
    let r = if p.games <= 8 {
        provisional(p.rating, p.games as f64, 1.0, opp, 2.0 * s - 1.0)
    } else {
        established(p.rating, p.games as f64, 1, s, e(p.rating, opp), t)
    };
    r.max(100.0)
}

pub fn h_c01_uscf() {
    let (x, y) = expected_score(&player("a", "ag"), &player("b", "bg"));
    probabilities(x, y);
}
pub fn h_c02_uscf() {
    let a = player("a", "ag");
    let opp = any_vec("opp", 0, MANY, |_| player("o", "og"));
    let r = expected_score_rating_period(&a, &opp);
    check_int_eq("one expectation per opponent", r.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("same as head to head", r[i], expected_score(&a, &opp[i]).0));
}
pub fn h_c03_uscf() {
    let (a, b, c) = (player("a", "ag"), player("b", "bg"), config());
    let w = uscf(&a, &b, &Outcomes::WIN, &c);
    let d = uscf(&a, &b, &Outcomes::DRAW, &c);
    let l = uscf(&a, &b, &Outcomes::LOSS, &c);
    ordered(w.0.rating, d.0.rating, l.0.rating);
    ordered(l.1.rating, d.1.rating, w.1.rating);
}
pub fn h_c05_uscf() {
    let (a, b, c) = (player("a", "ag"), player("b", "bg"), config());
    let o = any_outcome("o");
    let (x, y) = uscf(&a, &b, &o, &c);
    let (y2, x2) = uscf(&b, &a, &flip(o), &c);
    check_eq("first player", x.rating, x2.rating);
    check_eq("second player", y.rating, y2.rating);
    check_int_eq("first games", x.games, x2.games);
    check_int_eq("second games", y.games, y2.games);
    let (p, q) = expected_score(&a, &b);
    let (q2, p2) = expected_score(&b, &a);
    check_eq("first expectation", p, p2);
    check_eq("second expectation", q, q2);
}
pub fn h_c06_uscf() {
    let (a, b, c) = (player("a", "ag"), player("b", "bg"), config());
    let o = any_outcome("o");
    let (x, y) = uscf(&a, &b, &o, &c);
    check_eq("first rating", x.rating, one(&a, b.rating, score(o), c.t));
    check_eq("second rating", y.rating, one(&b, a.rating, 1.0 - score(o), c.t));
    check_eq("expectation", expected_score(&a, &b).0, e(a.rating, b.rating));
}
pub fn h_c07_uscf() {
    let (a, c) = (player("a", "ag"), config());
    let res = results();
    assume(!res.is_empty());
    let n = uscf_rating_period(&a, &res, &c);
    let mut s = 0.0;
    let mut exp = 0.0;
    let mut opp = 0.0;
    for (o, r) in &res {
        s += score(*r);
        exp += e(a.rating, o.rating);
        opp += o.rating;
    }
    let m = res.len() as f64;
    let r = if a.games <= 8 {
        provisional(a.rating, a.games as f64, m, opp / m, 2.0 * s - m)
    } else {
        established(a.rating, a.games as f64, res.len(), s, exp, c.t)
    };
    check_eq("rating", n.rating, r.max(100.0));
}
pub fn h_c08_uscf_empty() {
    let (a, c) = (player("a", "ag"), config());
    let n = uscf_rating_period(&a, &[], &c);
    check_eq("nothing played, nothing changed", n.rating, a.rating);
    check_int_eq("games unchanged", n.games, a.games);
}
pub fn h_c08_uscf_one() {
    let (a, b, c) = (player("a", "ag"), player("b", "bg"), config());
    let o = any_outcome("o");
    let (x, y) = (uscf_rating_period(&a, &[(b, o)], &c), uscf(&a, &b, &o, &c).0);
    check_eq("one result is one match", x.rating, y.rating);
    check_int_eq("games", x.games, y.games);
}
pub fn h_c08_uscf_order() {
    let (a, c) = (player("a", "ag"), config());
    let s = results();
    let x = (player("x", "xg"), any_outcome("xo"));
    let y = (player("y", "yg"), any_outcome("yo"));
    let mut one = vec![x, y];
    one.extend(s.iter().copied());
    let mut two = vec![y, x];
    two.extend(s.iter().copied());
    check_eq("first two results exchanged", uscf_rating_period(&a, &one, &c).rating, uscf_rating_period(&a, &two, &c).rating);
    let mut three = vec![x];
    three.extend(s.iter().copied());
    let mut four = s.clone();
    four.push(x);
    check_eq("first result moved to the end", uscf_rating_period(&a, &three, &c).rating, uscf_rating_period(&a, &four, &c).rating);
}
pub fn h_c10_uscf() {
    let (a, b, c) = (player("a", "ag"), player("b", "bg"), config());
    let (x, y) = uscf(&a, &b, &any_outcome("o"), &c);
    check_le("never below 100, first", 100.0, x.rating);
    check_le("never below 100, second", 100.0, y.rating);
}
pub fn h_c10_uscf_period() {
    let (a, c) = (player("a", "ag"), config());
    let res = results();
    check_le("never below 100 in a period", 100.0, uscf_rating_period(&a, &res, &c).rating);
}
pub fn h_c10_uscf_new() {
    let x = USCFRating::new(any_usize("age", 0, 1 << 20));
    check_le("a new rating is at least 100", 100.0, x.rating);
    check_le("a new rating is at most 1300", x.rating, 1300.0);
}
pub fn h_c14_uscf() {
    let (a, b, c) = (player("a", "ag"), player("b", "bg"), config());
    let _ = uscf(&a, &b, &any_outcome("o"), &c);
    let _ = expected_score(&a, &b);
    let _ = USCFRating::new(any_usize("age", 0, 1 << 20));
    let opp = any_vec("opp", 0, MANY, |_| player("p", "pg"));
    let _ = expected_score_rating_period(&a, &opp);
}
pub fn h_c14_uscf_period() {
    let (a, c) = (player("a", "ag"), config());
    let res = results();
    let _ = uscf_rating_period(&a, &res, &c);
}
pub fn h_c15_uscf() {
    let (a, b, c) = (player("a", "ag"), player("b", "bg"), config());
    let (x, y) = uscf(&a, &b, &any_outcome("o"), &c);
    check_finite("first rating", x.rating);
    check_finite("second rating", y.rating);
    let (p, q) = expected_score(&a, &b);
    check_finite("first expectation", p);
    check_finite("second expectation", q);
}
pub fn h_c15_uscf_period() {
    let (a, c) = (player("a", "ag"), config());
    let res = results();
    check_finite("rating", uscf_rating_period(&a, &res, &c).rating);
}
pub fn h_c16_uscf() {
    let (a, b, c) = (player("a", "ag"), player("b", "bg"), config());
    let o = any_outcome("o");
    let s: USCF = RatingSystem::new(c);
    let (x, y) = RatingSystem::rate(&s, &a, &b, &o);
    let (x2, y2) = uscf(&a, &b, &o, &c);
    check_eq("rate, first", x.rating, x2.rating);
    check_eq("rate, second", y.rating, y2.rating);
    check_int_eq("rate, first games", x.games, x2.games);
    check_int_eq("rate, second games", y.games, y2.games);
    let (p, q) = RatingSystem::expected_score(&s, &a, &b);
    let (p2, q2) = expected_score(&a, &b);
    check_eq("expectation, first", p, p2);
    check_eq("expectation, second", q, q2);
}
pub fn h_c16_uscf_period() {
    let (a, c) = (player("a", "ag"), config());
    let s: USCF = RatingPeriodSystem::new(c);
    let res = results();
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &res), uscf_rating_period(&a, &res, &c));
    check_eq("rate", x.rating, y.rating);
    check_int_eq("rate, games", x.games, y.games);
    let opp = any_vec("opp", 0, MANY, |_| player("p", "pg"));
    let p = RatingPeriodSystem::expected_score(&s, &a, &opp);
    let q = expected_score_rating_period(&a, &opp);
    check_int_eq("one expectation per opponent", p.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("expectation", p[i], q[i]));
}
pub fn h_c17_uscf() {
    let age = any_usize("age", 0, 1 << 20);
    let games = any_usize("games", 0, 1 << 20);
    let r = any_f64("r", -10000.0, 10000.0);
    let x = USCFRating::new(age);
    let by_age = if age < 2 {
        100.0
    } else if age > 26 {
        1300.0
    } else {
        50.0 * age as f64
    };
    check_eq("new, by age", x.rating, by_age);
    check_int_eq("new, games", x.games, 0);
    let x = USCFRating::default();
    check_eq("default", x.rating, 1300.0);
    check_int_eq("default, games", x.games, 0);
    check_eq("default t", USCFConfig::new().t, 14.0);
    check_eq("default t", USCFConfig::default().t, 14.0);
    let x = USCFRating::from((r, games));
    check_eq("from", x.rating, r);
    check_int_eq("from, games", x.games, games);
    let x: USCFRating = Rating::new(Some(r), None);
    check_eq("trait new", x.rating, r);
    check_int_eq("trait new, games", x.games, 0);
    check_eq("trait getter", Rating::rating(&x), r);
    check("no uncertainty", Rating::uncertainty(&x).is_none());
    let x: USCFRating = Rating::new(None, None);
    check_eq("trait new without a rating", x.rating, 1300.0);
    let x = USCFRating::from(EloRating { rating: r });
    check_eq("from Elo", x.rating, if r > 2000.0 { 180.0 + 0.94 * r } else { 20.0 + 1.02 * r });
    check_int_eq("from Elo, games", x.games, if r > 2000.0 { 10 } else { 5 });
    check_eq("there and back", EloRating::from(x).rating, r);
    let u = USCFRating { rating: r, games };
    check_eq("to Elo", EloRating::from(u).rating, if r > 2060.0 { (r - 180.0) / 0.94 } else { (r - 20.0) / 1.02 });
}
pub fn h_c21_uscf() {
    let (a, b, c) = (player("a", "ag"), player("b", "bg"), config());
    let (x, y) = uscf(&a, &b, &any_outcome("o"), &c);
    check_int_eq("first games count one more", x.games, a.games + 1);
    check_int_eq("second games count one more", y.games, b.games + 1);
    let res = results();
    check_int_eq("games count every result of a period", uscf_rating_period(&a, &res, &c).games, a.games + res.len());
}
