use super::common::*;
use crate::rt::*;
use skillratings::glicko::GlickoRating;
use skillratings::glicko2::*;
use skillratings::glicko_boost::GlickoBoostRating;
use skillratings::sticko::StickoRating;
use skillratings::{Outcomes, Rating, RatingPeriodSystem, RatingSystem};

fn player(name: &str, dev: &str, vol: &str) -> Glicko2Rating {
    Glicko2Rating { rating: any_f64(name, 0.0, 4000.0), deviation: any_f64(dev, 10.0, 500.0), volatility: any_f64(vol, 0.01, 0.2) }
}
fn config() -> Glicko2Config {
    Glicko2Config { tau: any_f64("tau", 0.2, 1.2), convergence_tolerance: any_f64("tolerance", 1e-9, 1e-4) }
}
fn results() -> Vec<(Glicko2Rating, Outcomes)> {
    any_vec("res", 0, MANY, |_| (player("o", "od", "ov"), any_outcome("s")))
}
const SCALE: f64 = 173.7178;
fn g(deviation: f64) -> f64 {
    let pi = std::f64::consts::PI;
    let phi = deviation / SCALE;
    1.0 / (1.0 + 3.0 * phi * phi / (pi * pi)).sqrt()
}
fn e(a: f64, b: f64, deviation: f64) -> f64 {
    1.0 / (1.0 + (-g(deviation) * (a - b) / SCALE).exp())
}
/// information of one game
fn info(a: f64, o: &Glicko2Rating) -> f64 {
    let p = e(a, o.rating, o.deviation);
    g(o.deviation) * g(o.deviation) * p * (1.0 - p)
}
fn gain(a: f64, o: &Glicko2Rating, s: f64) -> f64 {
    g(o.deviation) * (s - e(a, o.rating, o.deviation))
}
/// update for a given new volatility
fn after(p: &Glicko2Rating, volatility: f64, information: f64, gain: f64) -> (f64, f64) {
    let phi = p.deviation / SCALE;
    let precision = 1.0 / (phi * phi + volatility * volatility) + information;
    (p.rating + SCALE * gain / precision, SCALE / precision.sqrt())
}
/// left side of the volatility equation, at x = 2 ln(volatility)
fn equation(x: f64, p: &Glicko2Rating, c: &Glicko2Config, information: f64, gain: f64) -> f64 {
    let phi = p.deviation / SCALE;
    let v = 1.0 / information;
    let delta = v * gain;
    let s = phi * phi + v + x.exp();
    x.exp() * (delta * delta - s) / (2.0 * s * s) - (x - (p.volatility * p.volatility).ln()) / (c.tau * c.tau)
}
fn solves(volatility: f64, p: &Glicko2Rating, c: &Glicko2Config, information: f64, gain: f64) {
    check_lt("the volatility is positive", 0.0, volatility);
    let x = 2.0 * volatility.ln();
    let t = c.convergence_tolerance * 1.000001 + 1e-9;
    let (l, h) = (equation(x - t, p, c, information, gain), equation(x + t, p, c, information, gain));
    check_le("the volatility equation has a zero within the tolerance", l * h, 0.0);
}

pub fn h_c01_glicko2() {
    let (x, y) = expected_score(&player("a", "ad", "av"), &player("b", "bd", "bv"));
    probabilities(x, y);
}
pub fn h_c02_glicko2() {
    let a = player("a", "ad", "av");
    let opp = any_vec("opp", 0, MANY, |_| player("o", "od", "ov"));
    let r = expected_score_rating_period(&a, &opp);
    check_int_eq("one expectation per opponent", r.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("same as head to head", r[i], expected_score(&a, &opp[i]).0));
}
pub fn h_c03_glicko2() {
    let (a, b, c) = (player("a", "ad", "av"), player("b", "bd", "bv"), config());
    let w = glicko2(&a, &b, &Outcomes::WIN, &c);
    let d = glicko2(&a, &b, &Outcomes::DRAW, &c);
    let l = glicko2(&a, &b, &Outcomes::LOSS, &c);
    ordered(w.0.rating, d.0.rating, l.0.rating);
    ordered(l.1.rating, d.1.rating, w.1.rating);
    check_le("winning does not cost rating", a.rating, w.0.rating);
    check_le("losing does not gain rating", l.0.rating, a.rating);
    check_le("winning does not cost rating", b.rating, l.1.rating);
    check_le("losing does not gain rating", w.1.rating, b.rating);
}
pub fn h_c05_glicko2() {
    let (a, b, c) = (player("a", "ad", "av"), player("b", "bd", "bv"), config());
    let o = any_outcome("o");
    let (x, y) = glicko2(&a, &b, &o, &c);
    let (y2, x2) = glicko2(&b, &a, &flip(o), &c);
    check_eq("first player", x.rating, x2.rating);
    check_eq("second player", y.rating, y2.rating);
    check_eq("first deviation", x.deviation, x2.deviation);
    check_eq("second deviation", y.deviation, y2.deviation);
    check_eq("first volatility", x.volatility, x2.volatility);
    check_eq("second volatility", y.volatility, y2.volatility);
    let (p, q) = expected_score(&a, &b);
    let (q2, p2) = expected_score(&b, &a);
    check_eq("first expectation", p, p2);
    check_eq("second expectation", q, q2);
}
pub fn h_c06_glicko2() {
    let (a, b, c) = (player("a", "ad", "av"), player("b", "bd", "bv"), config());
    let o = any_outcome("o");
    let (x, y) = glicko2(&a, &b, &o, &c);
    let first = after(&a, x.volatility, info(a.rating, &b), gain(a.rating, &b, score(o)));
    let second = after(&b, y.volatility, info(b.rating, &a), gain(b.rating, &a, 1.0 - score(o)));
    check_eq("first rating", x.rating, first.0);
    check_eq("first deviation", x.deviation, first.1);
    check_eq("second rating", y.rating, second.0);
    check_eq("second deviation", y.deviation, second.1);
    let both = (a.deviation * a.deviation + b.deviation * b.deviation).sqrt();
    check_eq("expectation", expected_score(&a, &b).0, e(a.rating, b.rating, both));
}
pub fn h_c06_glicko2_decay() {
    let (a, c) = (player("a", "ad", "av"), config());
    let x = decay_deviation(&a);
    check_eq("decay keeps the rating", x.rating, a.rating);
    check_eq("decay keeps the volatility", x.volatility, a.volatility);
    let (p, v) = (a.deviation / SCALE, a.volatility);
    check_eq("decayed deviation", x.deviation, (SCALE * (p * p + v * v).sqrt()).min(350.0));
}
pub fn h_c07_glicko2() {
    let (a, c) = (player("a", "ad", "av"), config());
    let res = results();
    assume(!res.is_empty());
    let n = glicko2_rating_period(&a, &res, &c);
    let mut information = 0.0;
    let mut sum = 0.0;
    for (o, s) in &res {
        information += info(a.rating, o);
        sum += gain(a.rating, o, score(*s));
    }
    let x = after(&a, n.volatility, information, sum);
    check_eq("rating", n.rating, x.0);
    check_eq("deviation", n.deviation, x.1);
}
pub fn h_c08_glicko2_empty() {
    let (a, c) = (player("a", "ad", "av"), config());
    let n = glicko2_rating_period(&a, &[], &c);
    check_eq("nothing played, rating unchanged", n.rating, a.rating);
    check_eq("nothing played, volatility kept", n.volatility, a.volatility);
    check_eq("nothing played, decay", n.deviation, decay_deviation(&a).deviation);
}
pub fn h_c08_glicko2_one() {
    let (a, b, c) = (player("a", "ad", "av"), player("b", "bd", "bv"), config());
    let o = any_outcome("o");
    let (x, y) = (glicko2_rating_period(&a, &[(b, o)], &c), glicko2(&a, &b, &o, &c).0);
    check_eq("one result is one match", x.rating, y.rating);
    check_eq("one result is one match, deviation", x.deviation, y.deviation);
    check_eq("one result is one match, volatility", x.volatility, y.volatility);
}
pub fn h_c08_glicko2_order() {
    let (a, c) = (player("a", "ad", "av"), config());
    let s = results();
    let x = (player("x", "xd", "xv"), any_outcome("xo"));
    let y = (player("y", "yd", "yv"), any_outcome("yo"));
    let mut one = vec![x, y];
    one.extend(s.iter().copied());
    let mut two = vec![y, x];
    two.extend(s.iter().copied());
    let (p, q) = (glicko2_rating_period(&a, &one, &c), glicko2_rating_period(&a, &two, &c));
    check_eq("first two results exchanged", p.rating, q.rating);
    check_eq("first two results exchanged, deviation", p.deviation, q.deviation);
    check_eq("first two results exchanged, volatility", p.volatility, q.volatility);
    let mut three = vec![x];
    three.extend(s.iter().copied());
    let mut four = s.clone();
    four.push(x);
    let (p, q) = (glicko2_rating_period(&a, &three, &c), glicko2_rating_period(&a, &four, &c));
    check_eq("first result moved to the end", p.rating, q.rating);
    check_eq("first result moved to the end, deviation", p.deviation, q.deviation);
    check_eq("first result moved to the end, volatility", p.volatility, q.volatility);
}
fn widened(d: f64, v: f64) -> f64 {
    (d * d + SCALE * SCALE * v * v).sqrt()
}
pub fn h_c09_glicko2() {
    let (a, b, c) = (player("a", "ad", "av"), player("b", "bd", "bv"), config());
    let (x, y) = glicko2(&a, &b, &any_outcome("o"), &c);
    check_lt("first deviation is positive", 0.0, x.deviation);
    check_lt("second deviation is positive", 0.0, y.deviation);
    check_le("playing reduces the widened deviation of the first", x.deviation, widened(a.deviation, x.volatility));
    check_le("playing reduces the widened deviation of the second", y.deviation, widened(b.deviation, y.volatility));
    let u = decay_deviation(&a);
    check_le("inactivity does not reduce the deviation", a.deviation.min(350.0), u.deviation);
    check_le("inactivity leaves it at most 350", u.deviation, 350.0);
}
pub fn h_c09_glicko2_period() {
    let (a, c) = (player("a", "ad", "av"), config());
    let res = results();
    let x = glicko2_rating_period(&a, &res, &c);
    check_lt("deviation is positive", 0.0, x.deviation);
    check_le("playing reduces the widened deviation", x.deviation, widened(a.deviation, x.volatility));
}
pub fn h_c14_glicko2() {
    let (a, b, c) = (player("a", "ad", "av"), player("b", "bd", "bv"), config());
    let _ = glicko2(&a, &b, &any_outcome("o"), &c);
    let _ = expected_score(&a, &b);
    let _ = confidence_interval(&a);
    let _ = decay_deviation(&a);
    let res = results();
    let _ = glicko2_rating_period(&a, &res, &c);
    let opp = any_vec("opp", 0, MANY, |_| player("p", "pd", "pv"));
    let _ = expected_score_rating_period(&a, &opp);
}
pub fn h_c15_glicko2() {
    let (a, b, c) = (player("a", "ad", "av"), player("b", "bd", "bv"), config());
    let (x, y) = glicko2(&a, &b, &any_outcome("o"), &c);
    check_finite("first rating", x.rating);
    check_finite("second rating", y.rating);
    check_finite("first deviation", x.deviation);
    check_finite("first volatility", x.volatility);
    check_finite("second volatility", y.volatility);
    check_finite("second deviation", y.deviation);
    let (p, q) = expected_score(&a, &b);
    check_finite("first expectation", p);
    check_finite("second expectation", q);
    check_finite("decayed deviation", decay_deviation(&a).deviation);
    let (l, h) = confidence_interval(&a);
    check_finite("lower end of the interval", l);
    check_finite("upper end of the interval", h);
}
pub fn h_c15_glicko2_period() {
    let (a, c) = (player("a", "ad", "av"), config());
    let res = results();
    let x = glicko2_rating_period(&a, &res, &c);
    check_finite("rating", x.rating);
    check_finite("deviation", x.deviation);
    check_finite("volatility", x.volatility);
}
pub fn h_c16_glicko2() {
    let (a, b, c) = (player("a", "ad", "av"), player("b", "bd", "bv"), config());
    let o = any_outcome("o");
    let s: Glicko2 = RatingSystem::new(c);
    let (x, y) = RatingSystem::rate(&s, &a, &b, &o);
    let (x2, y2) = glicko2(&a, &b, &o, &c);
    check_eq("rate, first", x.rating, x2.rating);
    check_eq("rate, second", y.rating, y2.rating);
    check_eq("rate, first volatility", x.volatility, x2.volatility);
    check_eq("rate, second volatility", y.volatility, y2.volatility);
    check_eq("rate, first deviation", x.deviation, x2.deviation);
    check_eq("rate, second deviation", y.deviation, y2.deviation);
    let (p, q) = RatingSystem::expected_score(&s, &a, &b);
    let (p2, q2) = expected_score(&a, &b);
    check_eq("expectation, first", p, p2);
    check_eq("expectation, second", q, q2);
}
pub fn h_c16_glicko2_period() {
    let (a, c) = (player("a", "ad", "av"), config());
    let s: Glicko2 = RatingPeriodSystem::new(c);
    let res = results();
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &res), glicko2_rating_period(&a, &res, &c));
    check_eq("rate", x.rating, y.rating);
    check_eq("rate, deviation", x.deviation, y.deviation);
    check_eq("rate, volatility", x.volatility, y.volatility);
    let opp = any_vec("opp", 0, MANY, |_| player("p", "pd", "pv"));
    let p = RatingPeriodSystem::expected_score(&s, &a, &opp);
    let q = expected_score_rating_period(&a, &opp);
    check_int_eq("one expectation per opponent", p.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("expectation", p[i], q[i]));
}
pub fn h_c17_glicko2() {
    let (r, d, v) = (any_f64("r", -10000.0, 10000.0), any_f64("d", 0.0, 1000.0), any_f64("v", 0.0, 1.0));
    check_eq("new", Glicko2Rating::new().rating, 1500.0);
    check_eq("new, deviation", Glicko2Rating::new().deviation, 350.0);
    check_eq("default", Glicko2Rating::default().rating, 1500.0);
    check_eq("default, deviation", Glicko2Rating::default().deviation, 350.0);
    check_eq("new, volatility", Glicko2Rating::new().volatility, 0.06);
    check_eq("default, volatility", Glicko2Rating::default().volatility, 0.06);
    for k in [Glicko2Config::new(), Glicko2Config::default()] {
        check_eq("default tau", k.tau, 0.5);
        check_eq("default tolerance", k.convergence_tolerance * 1e6, 1.0);
    }
    let x = Glicko2Rating::from((r, d, v));
    check_eq("from triple, volatility", x.volatility, v);
    let x = Glicko2Rating::from((r, d, v));
    check_eq("from triple", x.rating, r);
    check_eq("from triple, deviation", x.deviation, d);
    let x: Glicko2Rating = Rating::new(Some(r), Some(d));
    check_eq("trait new", x.rating, r);
    check_eq("trait new, deviation", x.deviation, d);
    check_eq("trait new, volatility", x.volatility, 0.06);
    check_eq("trait getter", Rating::rating(&x), r);
    check("trait uncertainty", Rating::uncertainty(&x) == Some(d));
    let x: Glicko2Rating = Rating::new(None, None);
    check_eq("trait new without a rating", x.rating, 1500.0);
    check_eq("trait new without a deviation", x.deviation, 350.0);
    let x = Glicko2Rating::from(GlickoRating { rating: r, deviation: d });
    check_eq("from Glicko", x.rating, r);
    check_eq("from Glicko, deviation", x.deviation, d);
    check_eq("from Glicko, volatility", x.volatility, 0.06);
    let x = Glicko2Rating::from(GlickoBoostRating { rating: r, deviation: d });
    check_eq("from Glicko-Boost", x.rating, r);
    check_eq("from Glicko-Boost, deviation", x.deviation, d);
    check_eq("from Glicko-Boost, volatility", x.volatility, 0.06);
    let x = Glicko2Rating::from(StickoRating { rating: r, deviation: d });
    check_eq("from Sticko", x.rating, r);
    check_eq("from Sticko, deviation", x.deviation, d);
    check_eq("from Sticko, volatility", x.volatility, 0.06);
}
pub fn h_c20_glicko2() {
    let a = player("a", "ad", "av");
    let (l, h) = confidence_interval(&a);
    check_eq("lower end", l, a.rating - 1.96 * a.deviation);
    check_eq("upper end", h, a.rating + 1.96 * a.deviation);
    check_le("ordered", l, h);
}
pub fn h_c22_glicko2() {
    let (a, b, c) = (player("a", "ad", "av"), player("b", "bd", "bv"), config());
    let o = any_outcome("o");
    let (x, y) = glicko2(&a, &b, &o, &c);
    solves(x.volatility, &a, &c, info(a.rating, &b), gain(a.rating, &b, score(o)));
    solves(y.volatility, &b, &c, info(b.rating, &a), gain(b.rating, &a, 1.0 - score(o)));
}
pub fn h_c22_glicko2_period() {
    let (a, c) = (player("a", "ad", "av"), config());
    let res = results();
    assume(!res.is_empty());
    let x = glicko2_rating_period(&a, &res, &c);
    let mut information = 0.0;
    let mut sum = 0.0;
    for (o, s) in &res {
        information += info(a.rating, o);
        sum += gain(a.rating, o, score(*s));
    }
    solves(x.volatility, &a, &c, information, sum);
}
pub fn h_c22_glicko2_positive() {
    let (a, b, c) = (player("a", "ad", "av"), player("b", "bd", "bv"), config());
    let (x, y) = glicko2(&a, &b, &any_outcome("o"), &c);
    check_lt("first volatility is positive", 0.0, x.volatility);
    check_lt("second volatility is positive", 0.0, y.volatility);
    let res = results();
    check_lt("period volatility is positive", 0.0, glicko2_rating_period(&a, &res, &c).volatility);
    check_eq("inactivity keeps the volatility", decay_deviation(&a).volatility, a.volatility);
}
