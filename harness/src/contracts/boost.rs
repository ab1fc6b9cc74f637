use super::common::*;
use crate::rt::*;
use skillratings::glicko::GlickoRating;
use skillratings::glicko2::Glicko2Rating;
use skillratings::glicko_boost::*;
use skillratings::sticko::StickoRating;
use skillratings::{Outcomes, Rating, RatingPeriodSystem, RatingSystem};

fn player(name: &str, dev: &str) -> GlickoBoostRating {
    GlickoBoostRating { rating: any_f64(name, 0.0, 4000.0), deviation: any_f64(dev, 1.0, 500.0) }
}
fn config() -> GlickoBoostConfig {
    GlickoBoostConfig {
        eta: any_f64("eta", -200.0, 200.0),
        k: any_f64("k", 0.0, 10.0),
        b: (any_f64("b0", 0.0, 2.0), any_f64("b1", 0.0, 100.0)),
        alpha: (
            any_f64("alpha0", -10.0, 10.0),
            any_f64("alpha1", -0.01, 0.01),
            any_f64("alpha2", -0.001, 0.001),
            any_f64("alpha3", -0.1, 0.1),
            any_f64("alpha4", -0.1, 0.1),
        ),
    }
}
/// the configuration in which the other side has the advantage
fn mirrored(c: &GlickoBoostConfig) -> GlickoBoostConfig {
    GlickoBoostConfig { eta: -c.eta, ..*c }
}
fn results() -> Vec<(GlickoBoostRating, Outcomes, bool)> {
    any_vec("res", 0, MANY, |_| (player("o", "od"), any_outcome("s"), any_bool("w")))
}
fn side(white: bool, eta: f64) -> f64 {
    if white {
        eta
    } else {
        -eta
    }
}
/// information of one game
fn info(a: f64, o: &GlickoBoostRating) -> f64 {
    let e = glicko_e(a, o.rating, o.deviation);
    glicko_g(o.deviation) * glicko_g(o.deviation) * e * (1.0 - e)
}
fn gain(a: f64, o: &GlickoBoostRating, s: f64) -> f64 {
    glicko_g(o.deviation) * (s - glicko_e(a, o.rating, o.deviation))
}
/// increase of the deviation from one period to the next
fn increased(r: f64, d: f64, c: &GlickoBoostConfig) -> f64 {
    let t = r / 1000.0;
    let x = c.alpha.0 + c.alpha.1 * d + c.alpha.2 * d * t + c.alpha.3 * t + c.alpha.4 * t * t;
    (d * d + x.exp()).sqrt().min(350.0)
}
fn combined(d: f64, information: f64) -> f64 {
    let q = glicko_q();
    (1.0 / (1.0 / (d * d) + q * q * information)).sqrt()
}
fn after(p: &GlickoBoostRating, c: &GlickoBoostConfig, information: f64, gain: f64) -> (f64, f64) {
    let z = gain / information.sqrt();
    let d = combined(p.deviation, information);
    let d = if c.k != 0.0 && z > c.k {
        // an exceptional performance: the deviation is boosted first
        combined((1.0 + (z - c.k) * c.b.0) * d + c.b.1, information)
    } else {
        d
    };
    let d = d.min(350.0);
    let r = p.rating + glicko_q() * d * d * gain;
    (r, increased(r, d, c))
}

pub fn h_c01_boost() {
    let (x, y) = expected_score(&player("a", "ad"), &player("b", "bd"), &config());
    probabilities(x, y);
}
pub fn h_c02_boost() {
    let (a, c) = (player("a", "ad"), config());
    let opp = any_vec("opp", 0, MANY, |_| player("o", "od"));
    let with: Vec<(GlickoBoostRating, bool)> = opp.iter().map(|o| (*o, true)).collect();
    let r = expected_score_rating_period(&a, &with, &c);
    check_int_eq("one expectation per opponent", r.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("same as head to head", r[i], expected_score(&a, &opp[i], &c).0));
}
/// the colour is ignored (known finding): the value is either the right one or that of the first side
pub fn h_c02_boost_black() {
    let (a, c) = (player("a", "ad"), config());
    let opp = any_vec("opp", 0, MANY, |_| player("o", "od"));
    let with: Vec<(GlickoBoostRating, bool)> = opp.iter().map(|o| (*o, false)).collect();
    let r = expected_score_rating_period(&a, &with, &c);
    check_int_eq("one expectation per opponent", r.len(), opp.len());
    for_each_index(opp.len(), |i| {
        let right = expected_score(&opp[i], &a, &c).1;
        let first = expected_score(&a, &opp[i], &c).0;
        check_eq("same as head to head, or the listed finding", (r[i] - right) * (r[i] - first), 0.0)
    });
}
pub fn h_c03_boost() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let w = glicko_boost(&a, &b, &Outcomes::WIN, &c);
    let d = glicko_boost(&a, &b, &Outcomes::DRAW, &c);
    let l = glicko_boost(&a, &b, &Outcomes::LOSS, &c);
    ordered(w.0.rating, d.0.rating, l.0.rating);
    ordered(l.1.rating, d.1.rating, w.1.rating);
    check_le("winning does not cost rating", a.rating, w.0.rating);
    check_le("losing does not gain rating", l.0.rating, a.rating);
    check_le("winning does not cost rating", b.rating, l.1.rating);
    check_le("losing does not gain rating", w.1.rating, b.rating);
}
pub fn h_c05_boost() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let (x, y) = glicko_boost(&a, &b, &o, &c);
    let (y2, x2) = glicko_boost(&b, &a, &flip(o), &mirrored(&c));
    check_eq("first player", x.rating, x2.rating);
    check_eq("second player", y.rating, y2.rating);
    check_eq("first deviation", x.deviation, x2.deviation);
    check_eq("second deviation", y.deviation, y2.deviation);
    let (p, q) = expected_score(&a, &b, &c);
    let (q2, p2) = expected_score(&b, &a, &mirrored(&c));
    check_eq("first expectation", p, p2);
    check_eq("second expectation", q, q2);
}
pub fn h_c06_boost() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let (x, y) = glicko_boost(&a, &b, &o, &c);
    let (up, down) = (a.rating + c.eta, b.rating - c.eta);
    let first = after(&a, &c, info(up, &b), gain(up, &b, score(o)));
    let second = after(&b, &c, info(down, &a), gain(down, &a, 1.0 - score(o)));
    check_eq("first rating", x.rating, first.0);
    check_eq("first deviation", x.deviation, first.1);
    check_eq("second rating", y.rating, second.0);
    check_eq("second deviation", y.deviation, second.1);
    let both = (a.deviation * a.deviation + b.deviation * b.deviation).sqrt();
    check_eq("expectation", expected_score(&a, &b, &c).0, glicko_e(up, b.rating, both));
}
pub fn h_c06_boost_decay() {
    let (a, c) = (player("a", "ad"), config());
    let x = decay_deviation(&a, &c);
    check_eq("decay keeps the rating", x.rating, a.rating);
    check_eq("decayed deviation", x.deviation, increased(a.rating, a.deviation, &c));
}
pub fn h_c07_boost() {
    let (a, c) = (player("a", "ad"), config());
    let res = results();
    assume(!res.is_empty());
    let n = glicko_boost_rating_period(&a, &res, &c);
    let mut information = 0.0;
    let mut sum = 0.0;
    for (o, s, white) in &res {
        let up = a.rating + side(*white, c.eta);
        information += info(up, o);
        sum += gain(up, o, score(*s));
    }
    let x = after(&a, &c, information, sum);
    check_eq("rating", n.rating, x.0);
    check_eq("deviation", n.deviation, x.1);
}
pub fn h_c08_boost_empty() {
    let (a, c) = (player("a", "ad"), config());
    let n = glicko_boost_rating_period(&a, &[], &c);
    check_eq("nothing played, rating unchanged", n.rating, a.rating);
    check_eq("nothing played, decay", n.deviation, decay_deviation(&a, &c).deviation);
}
pub fn h_c08_boost_one() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let (x, y) = (glicko_boost_rating_period(&a, &[(b, o, true)], &c), glicko_boost(&a, &b, &o, &c).0);
    check_eq("one result is one match", x.rating, y.rating);
    check_eq("one result is one match, deviation", x.deviation, y.deviation);
    let (x, y) = (glicko_boost_rating_period(&a, &[(b, o, false)], &c), glicko_boost(&b, &a, &flip(o), &c).1);
    check_eq("one result is one match, second side", x.rating, y.rating);
    check_eq("one result is one match, second side, deviation", x.deviation, y.deviation);
}
pub fn h_c08_boost_order() {
    let (a, c) = (player("a", "ad"), config());
    let s = results();
    let x = (player("x", "xd"), any_outcome("xo"), any_bool("xw"));
    let y = (player("y", "yd"), any_outcome("yo"), any_bool("yw"));
    let mut one = vec![x, y];
    one.extend(s.iter().copied());
    let mut two = vec![y, x];
    two.extend(s.iter().copied());
    let (p, q) = (glicko_boost_rating_period(&a, &one, &c), glicko_boost_rating_period(&a, &two, &c));
    check_eq("first two results exchanged", p.rating, q.rating);
    check_eq("first two results exchanged, deviation", p.deviation, q.deviation);
    let mut three = vec![x];
    three.extend(s.iter().copied());
    let mut four = s.clone();
    four.push(x);
    let (p, q) = (glicko_boost_rating_period(&a, &three, &c), glicko_boost_rating_period(&a, &four, &c));
    check_eq("first result moved to the end", p.rating, q.rating);
    check_eq("first result moved to the end, deviation", p.deviation, q.deviation);
}
pub fn h_c09_boost() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let (x, y) = glicko_boost(&a, &b, &any_outcome("o"), &c);
    check_lt("first deviation is positive", 0.0, x.deviation);
    check_lt("second deviation is positive", 0.0, y.deviation);
    check_le("first deviation at most 350", x.deviation, 350.0);
    check_le("second deviation at most 350", y.deviation, 350.0);
    let u = decay_deviation(&a, &c);
    check_le("inactivity does not reduce the deviation", a.deviation.min(350.0), u.deviation);
    check_le("inactivity leaves it at most 350", u.deviation, 350.0);
}
pub fn h_c09_boost_period() {
    let (a, c) = (player("a", "ad"), config());
    let res = results();
    let x = glicko_boost_rating_period(&a, &res, &c);
    check_lt("deviation is positive", 0.0, x.deviation);
    check_le("deviation at most 350", x.deviation, 350.0);
}
pub fn h_c14_boost() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let _ = glicko_boost(&a, &b, &any_outcome("o"), &c);
    let _ = expected_score(&a, &b, &c);
    let _ = confidence_interval(&a);
    let _ = decay_deviation(&a, &c);
    let res = results();
    let _ = glicko_boost_rating_period(&a, &res, &c);
    let opp = any_vec("opp", 0, MANY, |_| (player("p", "pd"), any_bool("w")));
    let _ = expected_score_rating_period(&a, &opp, &c);
}
pub fn h_c15_boost() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let (x, y) = glicko_boost(&a, &b, &any_outcome("o"), &c);
    check_finite("first rating", x.rating);
    check_finite("second rating", y.rating);
    check_finite("first deviation", x.deviation);
    check_finite("second deviation", y.deviation);
    let (p, q) = expected_score(&a, &b, &c);
    check_finite("first expectation", p);
    check_finite("second expectation", q);
    check_finite("decayed deviation", decay_deviation(&a, &c).deviation);
    let (l, h) = confidence_interval(&a);
    check_finite("lower end of the interval", l);
    check_finite("upper end of the interval", h);
}
pub fn h_c15_boost_period() {
    let (a, c) = (player("a", "ad"), config());
    let res = results();
    let x = glicko_boost_rating_period(&a, &res, &c);
    check_finite("rating", x.rating);
    check_finite("deviation", x.deviation);
}
pub fn h_c16_boost() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let s: GlickoBoost = RatingSystem::new(c);
    let (x, y) = RatingSystem::rate(&s, &a, &b, &o);
    let (x2, y2) = glicko_boost(&a, &b, &o, &c);
    check_eq("rate, first", x.rating, x2.rating);
    check_eq("rate, second", y.rating, y2.rating);
    check_eq("rate, first deviation", x.deviation, x2.deviation);
    check_eq("rate, second deviation", y.deviation, y2.deviation);
    let (p, q) = RatingSystem::expected_score(&s, &a, &b);
    let (p2, q2) = expected_score(&a, &b, &c);
    check_eq("expectation, first", p, p2);
    check_eq("expectation, second", q, q2);
}
pub fn h_c16_boost_period() {
    let (a, c) = (player("a", "ad"), config());
    let s: GlickoBoost = RatingPeriodSystem::new(c);
    let res = any_vec("res", 0, MANY, |_| (player("o", "od"), any_outcome("s")));
    let white: Vec<(GlickoBoostRating, Outcomes, bool)> = res.iter().map(|r| (r.0, r.1, true)).collect();
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &res), glicko_boost_rating_period(&a, &white, &c));
    check_eq("rate", x.rating, y.rating);
    check_eq("rate, deviation", x.deviation, y.deviation);
    let opp = any_vec("opp", 0, MANY, |_| player("p", "pd"));
    let p = RatingPeriodSystem::expected_score(&s, &a, &opp);
    check_int_eq("one expectation per opponent", p.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("expectation", p[i], expected_score(&a, &opp[i], &c).0));
}
pub fn h_c17_boost() {
    let (r, d, v) = (any_f64("r", -10000.0, 10000.0), any_f64("d", 0.0, 1000.0), any_f64("v", 0.0, 1.0));
    check_eq("new", GlickoBoostRating::new().rating, 1500.0);
    check_eq("new, deviation", GlickoBoostRating::new().deviation, 350.0);
    check_eq("default", GlickoBoostRating::default().rating, 1500.0);
    check_eq("default, deviation", GlickoBoostRating::default().deviation, 350.0);
    for k in [GlickoBoostConfig::new(), GlickoBoostConfig::default()] {
        check_eq("default eta", k.eta, 30.0);
        check_eq("default k", k.k, 1.96);
        check_eq("default b", k.b.0, 0.20139);
        check_eq("default b", k.b.1, 17.5);
        check_eq("default alpha", k.alpha.0, 5.83733);
        check_eq_tol("default alpha", k.alpha.1 * 1e4, -1.75374, 1e-9);
        check_eq_tol("default alpha", k.alpha.2 * 1e5, -7.080124, 1e-9);
        check_eq_tol("default alpha", k.alpha.3 * 1e3, 1.733792, 1e-9);
        check_eq_tol("default alpha", k.alpha.4 * 1e4, 2.6706, 1e-9);
    }
    let x = GlickoBoostRating::from((r, d));
    check_eq("from pair", x.rating, r);
    check_eq("from pair, deviation", x.deviation, d);
    let x: GlickoBoostRating = Rating::new(Some(r), Some(d));
    check_eq("trait new", x.rating, r);
    check_eq("trait new, deviation", x.deviation, d);
    check_eq("trait getter", Rating::rating(&x), r);
    check("trait uncertainty", Rating::uncertainty(&x) == Some(d));
    let x: GlickoBoostRating = Rating::new(None, None);
    check_eq("trait new without a rating", x.rating, 1500.0);
    check_eq("trait new without a deviation", x.deviation, 350.0);
    let x = GlickoBoostRating::from(Glicko2Rating { rating: r, deviation: d, volatility: v });
    check_eq("from Glicko-2", x.rating, r);
    check_eq("from Glicko-2, deviation", x.deviation, d);
    let x = GlickoBoostRating::from(StickoRating { rating: r, deviation: d });
    check_eq("from Sticko", x.rating, r);
    check_eq("from Sticko, deviation", x.deviation, d);
    let x = GlickoBoostRating::from(GlickoRating { rating: r, deviation: d });
    check_eq("from Glicko", x.rating, r);
    check_eq("from Glicko, deviation", x.deviation, d);
}
pub fn h_c20_boost() {
    let a = player("a", "ad");
    let (l, h) = confidence_interval(&a);
    check_eq("lower end", l, a.rating - 1.96 * a.deviation);
    check_eq("upper end", h, a.rating + 1.96 * a.deviation);
    check_le("ordered", l, h);
}
pub fn h_c19_boost() {
    let (a, b) = (player("a", "ad"), player("b", "bd"));
    assume(a.deviation <= 350.0 && b.deviation <= 350.0);
    let c = GlickoBoostConfig { eta: 0.0, k: 0.0, ..config() };
    let o = any_outcome("o");
    let (x, y) = glicko_boost(&a, &b, &o, &c);
    let (u, v) = skillratings::glicko::glicko(&a.into(), &b.into(), &o, &skillratings::glicko::GlickoConfig { c: 0.0 });
    check_eq("first rating as in Glicko", x.rating, u.rating);
    check_eq("first deviation as in Glicko, then increased", x.deviation, increased(u.rating, u.deviation, &c));
    check_eq("second rating as in Glicko", y.rating, v.rating);
    check_eq("second deviation as in Glicko, then increased", y.deviation, increased(v.rating, v.deviation, &c));
    check_eq("expectation as in Glicko", expected_score(&a, &b, &c).0, skillratings::glicko::expected_score(&a.into(), &b.into()).0);
}
pub fn h_c19_boost_period() {
    let a = player("a", "ad");
    assume(a.deviation <= 350.0);
    let c = GlickoBoostConfig { eta: 0.0, k: 0.0, ..config() };
    let res = results();
    assume(!res.is_empty());
    let same: Vec<(GlickoRating, Outcomes)> = res.iter().map(|r| (r.0.into(), r.1)).collect();
    let x = glicko_boost_rating_period(&a, &res, &c);
    let y = skillratings::glicko::glicko_rating_period(&a.into(), &same, &skillratings::glicko::GlickoConfig { c: 0.0 });
    check_eq("period rating as in Glicko", x.rating, y.rating);
    check_eq("period deviation as in Glicko, then increased", x.deviation, increased(y.rating, y.deviation, &c));
}
pub fn h_c19_boost_colour() {
    let a = player("a", "ad");
    let c = GlickoBoostConfig { eta: 0.0, ..config() };
    let res = results();
    let other: Vec<(GlickoBoostRating, Outcomes, bool)> = res.iter().map(|r| (r.0, r.1, !r.2)).collect();
    let (x, y) = (glicko_boost_rating_period(&a, &res, &c), glicko_boost_rating_period(&a, &other, &c));
    check_eq("colours do not matter without an advantage", x.rating, y.rating);
    check_eq("colours do not matter without an advantage, deviation", x.deviation, y.deviation);
}
