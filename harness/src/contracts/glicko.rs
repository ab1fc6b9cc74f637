use super::common::*;
use crate::rt::*;
use skillratings::glicko::*;
use skillratings::glicko2::Glicko2Rating;
use skillratings::glicko_boost::GlickoBoostRating;
use skillratings::sticko::StickoRating;
use skillratings::{Outcomes, Rating, RatingPeriodSystem, RatingSystem};

fn player(name: &str, dev: &str) -> GlickoRating {
    GlickoRating { rating: any_f64(name, 0.0, 4000.0), deviation: any_f64(dev, 1.0, 500.0) }
}
fn config() -> GlickoConfig {
    GlickoConfig { c: any_f64("c", 0.0, 200.0) }
}
fn results() -> Vec<(GlickoRating, Outcomes)> {
    any_vec("res", 0, MANY, |_| (player("o", "od"), any_outcome("s")))
}
fn pre(d: f64, c: f64) -> f64 {
    (d * d + c * c).sqrt().min(350.0)
}
/// information of one game
fn info(a: f64, o: &GlickoRating) -> f64 {
    let e = glicko_e(a, o.rating, o.deviation);
    glicko_g(o.deviation) * glicko_g(o.deviation) * e * (1.0 - e)
}
fn gain(a: f64, o: &GlickoRating, s: f64) -> f64 {
    glicko_g(o.deviation) * (s - glicko_e(a, o.rating, o.deviation))
}
fn after(p: &GlickoRating, c: f64, information: f64, gain: f64) -> (f64, f64) {
    let q = glicko_q();
    let d = pre(p.deviation, c);
    let precision = 1.0 / (d * d) + q * q * information;
    (p.rating + q / precision * gain, (1.0 / precision).sqrt())
}

pub fn h_c01_glicko() {
    let (x, y) = expected_score(&player("a", "ad"), &player("b", "bd"));
    probabilities(x, y);
}
pub fn h_c02_glicko() {
    let a = player("a", "ad");
    let opp = any_vec("opp", 0, MANY, |_| player("o", "od"));
    let r = expected_score_rating_period(&a, &opp);
    check_int_eq("one expectation per opponent", r.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("same as head to head", r[i], expected_score(&a, &opp[i]).0));
}
pub fn h_c03_glicko() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let w = glicko(&a, &b, &Outcomes::WIN, &c);
    let d = glicko(&a, &b, &Outcomes::DRAW, &c);
    let l = glicko(&a, &b, &Outcomes::LOSS, &c);
    ordered(w.0.rating, d.0.rating, l.0.rating);
    ordered(l.1.rating, d.1.rating, w.1.rating);
    check_le("winning does not cost rating", a.rating, w.0.rating);
    check_le("losing does not gain rating", l.0.rating, a.rating);
    check_le("winning does not cost rating", b.rating, l.1.rating);
    check_le("losing does not gain rating", w.1.rating, b.rating);
}
pub fn h_c05_glicko() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let (x, y) = glicko(&a, &b, &o, &c);
    let (y2, x2) = glicko(&b, &a, &flip(o), &c);
    check_eq("first player", x.rating, x2.rating);
    check_eq("second player", y.rating, y2.rating);
    check_eq("first deviation", x.deviation, x2.deviation);
    check_eq("second deviation", y.deviation, y2.deviation);
    let (p, q) = expected_score(&a, &b);
    let (q2, p2) = expected_score(&b, &a);
    check_eq("first expectation", p, p2);
    check_eq("second expectation", q, q2);
}
pub fn h_c06_glicko() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let (x, y) = glicko(&a, &b, &o, &c);
    let first = after(&a, c.c, info(a.rating, &b), gain(a.rating, &b, score(o)));
    let second = after(&b, c.c, info(b.rating, &a), gain(b.rating, &a, 1.0 - score(o)));
    check_eq("first rating", x.rating, first.0);
    check_eq("first deviation", x.deviation, first.1);
    check_eq("second rating", y.rating, second.0);
    check_eq("second deviation", y.deviation, second.1);
    let both = (a.deviation * a.deviation + b.deviation * b.deviation).sqrt();
    check_eq("expectation", expected_score(&a, &b).0, glicko_e(a.rating, b.rating, both));
}
pub fn h_c06_glicko_decay() {
    let (a, c) = (player("a", "ad"), config());
    let x = decay_deviation(&a, &c);
    check_eq("decay keeps the rating", x.rating, a.rating);
    check_eq("decayed deviation", x.deviation, pre(a.deviation, c.c));
}
pub fn h_c07_glicko() {
    let (a, c) = (player("a", "ad"), config());
    let res = results();
    assume(!res.is_empty());
    let n = glicko_rating_period(&a, &res, &c);
    let mut information = 0.0;
    let mut sum = 0.0;
    for (o, s) in &res {
        information += info(a.rating, o);
        sum += gain(a.rating, o, score(*s));
    }
    let x = after(&a, c.c, information, sum);
    check_eq("rating", n.rating, x.0);
    check_eq("deviation", n.deviation, x.1);
}
pub fn h_c08_glicko_empty() {
    let (a, c) = (player("a", "ad"), config());
    let n = glicko_rating_period(&a, &[], &c);
    check_eq("nothing played, rating unchanged", n.rating, a.rating);
    check_eq("nothing played, decay", n.deviation, decay_deviation(&a, &c).deviation);
}
pub fn h_c08_glicko_one() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let (x, y) = (glicko_rating_period(&a, &[(b, o)], &c), glicko(&a, &b, &o, &c).0);
    check_eq("one result is one match", x.rating, y.rating);
    check_eq("one result is one match, deviation", x.deviation, y.deviation);
}
pub fn h_c08_glicko_order() {
    let (a, c) = (player("a", "ad"), config());
    let s = results();
    let x = (player("x", "xd"), any_outcome("xo"));
    let y = (player("y", "yd"), any_outcome("yo"));
    let mut one = vec![x, y];
    one.extend(s.iter().copied());
    let mut two = vec![y, x];
    two.extend(s.iter().copied());
    let (p, q) = (glicko_rating_period(&a, &one, &c), glicko_rating_period(&a, &two, &c));
    check_eq("first two results exchanged", p.rating, q.rating);
    check_eq("first two results exchanged, deviation", p.deviation, q.deviation);
    let mut three = vec![x];
    three.extend(s.iter().copied());
    let mut four = s.clone();
    four.push(x);
    let (p, q) = (glicko_rating_period(&a, &three, &c), glicko_rating_period(&a, &four, &c));
    check_eq("first result moved to the end", p.rating, q.rating);
    check_eq("first result moved to the end, deviation", p.deviation, q.deviation);
}
pub fn h_c09_glicko() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let (x, y) = glicko(&a, &b, &any_outcome("o"), &c);
    check_lt("first deviation is positive", 0.0, x.deviation);
    check_lt("second deviation is positive", 0.0, y.deviation);
    let (u, v) = (decay_deviation(&a, &c), decay_deviation(&b, &c));
    check_le("playing reduces the decayed deviation of the first", x.deviation, u.deviation);
    check_le("playing reduces the decayed deviation of the second", y.deviation, v.deviation);
    check_le("first deviation at most 350", x.deviation, 350.0);
    check_le("second deviation at most 350", y.deviation, 350.0);
    check_le("inactivity does not reduce the deviation", a.deviation.min(350.0), u.deviation);
    check_le("inactivity leaves it at most 350", u.deviation, 350.0);
}
pub fn h_c09_glicko_period() {
    let (a, c) = (player("a", "ad"), config());
    let res = results();
    let x = glicko_rating_period(&a, &res, &c);
    check_lt("deviation is positive", 0.0, x.deviation);
    check_le("playing reduces the decayed deviation", x.deviation, decay_deviation(&a, &c).deviation);
    check_le("deviation at most 350", x.deviation, 350.0);
}
pub fn h_c14_glicko() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let _ = glicko(&a, &b, &any_outcome("o"), &c);
    let _ = expected_score(&a, &b);
    let _ = confidence_interval(&a);
    let _ = decay_deviation(&a, &c);
    let res = results();
    let _ = glicko_rating_period(&a, &res, &c);
    let opp = any_vec("opp", 0, MANY, |_| player("p", "pd"));
    let _ = expected_score_rating_period(&a, &opp);
}
pub fn h_c15_glicko() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let (x, y) = glicko(&a, &b, &any_outcome("o"), &c);
    check_finite("first rating", x.rating);
    check_finite("second rating", y.rating);
    check_finite("first deviation", x.deviation);
    check_finite("second deviation", y.deviation);
    let (p, q) = expected_score(&a, &b);
    check_finite("first expectation", p);
    check_finite("second expectation", q);
    check_finite("decayed deviation", decay_deviation(&a, &c).deviation);
    let (l, h) = confidence_interval(&a);
    check_finite("lower end of the interval", l);
    check_finite("upper end of the interval", h);
}
pub fn h_c15_glicko_period() {
    let (a, c) = (player("a", "ad"), config());
    let res = results();
    let x = glicko_rating_period(&a, &res, &c);
    check_finite("rating", x.rating);
    check_finite("deviation", x.deviation);
}
pub fn h_c16_glicko() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let s: Glicko = RatingSystem::new(c);
    let (x, y) = RatingSystem::rate(&s, &a, &b, &o);
    let (x2, y2) = glicko(&a, &b, &o, &c);
    check_eq("rate, first", x.rating, x2.rating);
    check_eq("rate, second", y.rating, y2.rating);
    check_eq("rate, first deviation", x.deviation, x2.deviation);
    check_eq("rate, second deviation", y.deviation, y2.deviation);
    let (p, q) = RatingSystem::expected_score(&s, &a, &b);
    let (p2, q2) = expected_score(&a, &b);
    check_eq("expectation, first", p, p2);
    check_eq("expectation, second", q, q2);
}
pub fn h_c16_glicko_period() {
    let (a, c) = (player("a", "ad"), config());
    let s: Glicko = RatingPeriodSystem::new(c);
    let res = results();
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &res), glicko_rating_period(&a, &res, &c));
    check_eq("rate", x.rating, y.rating);
    check_eq("rate, deviation", x.deviation, y.deviation);
    let opp = any_vec("opp", 0, MANY, |_| player("p", "pd"));
    let p = RatingPeriodSystem::expected_score(&s, &a, &opp);
    let q = expected_score_rating_period(&a, &opp);
    check_int_eq("one expectation per opponent", p.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("expectation", p[i], q[i]));
}
pub fn h_c17_glicko() {
    let (r, d, v) = (any_f64("r", -10000.0, 10000.0), any_f64("d", 0.0, 1000.0), any_f64("v", 0.0, 1.0));
    check_eq("new", GlickoRating::new().rating, 1500.0);
    check_eq("new, deviation", GlickoRating::new().deviation, 350.0);
    check_eq("default", GlickoRating::default().rating, 1500.0);
    check_eq("default, deviation", GlickoRating::default().deviation, 350.0);
    check_eq("default c", GlickoConfig::new().c, 63.2);
    check_eq("default c", GlickoConfig::default().c, 63.2);
    let x = GlickoRating::from((r, d));
    check_eq("from pair", x.rating, r);
    check_eq("from pair, deviation", x.deviation, d);
    let x: GlickoRating = Rating::new(Some(r), Some(d));
    check_eq("trait new", x.rating, r);
    check_eq("trait new, deviation", x.deviation, d);
    check_eq("trait getter", Rating::rating(&x), r);
    check("trait uncertainty", Rating::uncertainty(&x) == Some(d));
    let x: GlickoRating = Rating::new(None, None);
    check_eq("trait new without a rating", x.rating, 1500.0);
    check_eq("trait new without a deviation", x.deviation, 350.0);
    let x = GlickoRating::from(Glicko2Rating { rating: r, deviation: d, volatility: v });
    check_eq("from Glicko-2", x.rating, r);
    check_eq("from Glicko-2, deviation", x.deviation, d);
    let x = GlickoRating::from(GlickoBoostRating { rating: r, deviation: d });
    check_eq("from Glicko-Boost", x.rating, r);
    check_eq("from Glicko-Boost, deviation", x.deviation, d);
    let x = GlickoRating::from(StickoRating { rating: r, deviation: d });
    check_eq("from Sticko", x.rating, r);
    check_eq("from Sticko, deviation", x.deviation, d);
}
pub fn h_c20_glicko() {
    let a = player("a", "ad");
    let (l, h) = confidence_interval(&a);
    check_eq("lower end", l, a.rating - 1.96 * a.deviation);
    check_eq("upper end", h, a.rating + 1.96 * a.deviation);
    check_le("ordered", l, h);
}
