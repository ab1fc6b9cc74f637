use super::common::*;
use crate::rt::*;
use skillratings::glicko::GlickoRating;
use skillratings::glicko2::Glicko2Rating;
use skillratings::glicko_boost::GlickoBoostRating;
use skillratings::sticko::*;
use skillratings::{Outcomes, Rating, RatingPeriodSystem, RatingSystem};

fn player(name: &str, dev: &str) -> StickoRating {
    StickoRating { rating: any_f64(name, 0.0, 4000.0), deviation: any_f64(dev, 1.0, 500.0) }
}
fn config() -> StickoConfig {
    StickoConfig {
        h: any_f64("h", 0.0, 100.0),
        beta: any_f64("beta", 0.0, 10.0),
        lambda: any_f64("lambda", 0.0, 50.0),
        gamma: any_f64("gamma", -200.0, 200.0),
        c: any_f64("c", 0.0, 200.0),
    }
}
/// the configuration in which the other side has the advantage
fn mirrored(c: &StickoConfig) -> StickoConfig {
    StickoConfig { gamma: -c.gamma, ..*c }
}
fn results() -> Vec<(StickoRating, Outcomes, bool)> {
    any_vec("res", 0, MANY, |_| (player("o", "od"), any_outcome("s"), any_bool("w")))
}
fn side(white: bool, gamma: f64) -> f64 {
    if white {
        gamma
    } else {
        -gamma
    }
}
fn pre(d: f64, c: f64) -> f64 {
    (d * d + c * c).sqrt().min(350.0)
}
/// information of one game
fn info(a: f64, o: &StickoRating) -> f64 {
    let e = glicko_e(a, o.rating, o.deviation);
    glicko_g(o.deviation) * glicko_g(o.deviation) * e * (1.0 - e)
}
fn gain(a: f64, o: &StickoRating, s: f64, beta: f64) -> f64 {
    glicko_g(o.deviation) * (s - glicko_e(a, o.rating, o.deviation) + beta)
}
fn after(p: &StickoRating, c: &StickoConfig, games: f64, information: f64, gain: f64, opponents: f64) -> (f64, f64) {
    let q = glicko_q();
    let d = pre(p.deviation, c.c);
    let precision = 1.0 / (d * d) + q * q * information;
    let rating = p.rating + q / precision * gain + c.lambda / 100.0 * (opponents / games - p.rating);
    let variance = 1.0 / (1.0 / (d * d + c.h * games) + q * q * information);
    (rating, variance.sqrt().min(350.0))
}

pub fn h_c01_sticko() {
    let (x, y) = expected_score(&player("a", "ad"), &player("b", "bd"), &config());
    probabilities(x, y);
}
pub fn h_c02_sticko() {
    let (a, c) = (player("a", "ad"), config());
    let opp = any_vec("opp", 0, MANY, |_| (player("o", "od"), any_bool("w")));
    let r = expected_score_rating_period(&a, &opp, &c);
    check_int_eq("one expectation per opponent", r.len(), opp.len());
    for_each_index(opp.len(), |i| {
        let (o, white) = opp[i];
        let want = if white { expected_score(&a, &o, &c).0 } else { expected_score(&o, &a, &c).1 };
        check_eq("same as head to head", r[i], want)
    });
}
pub fn h_c03_sticko() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let w = sticko(&a, &b, &Outcomes::WIN, &c);
    let d = sticko(&a, &b, &Outcomes::DRAW, &c);
    let l = sticko(&a, &b, &Outcomes::LOSS, &c);
    ordered(w.0.rating, d.0.rating, l.0.rating);
    ordered(l.1.rating, d.1.rating, w.1.rating);
}
pub fn h_c05_sticko() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let (x, y) = sticko(&a, &b, &o, &c);
    let (y2, x2) = sticko(&b, &a, &flip(o), &mirrored(&c));
    check_eq("first player", x.rating, x2.rating);
    check_eq("second player", y.rating, y2.rating);
    check_eq("first deviation", x.deviation, x2.deviation);
    check_eq("second deviation", y.deviation, y2.deviation);
    let (p, q) = expected_score(&a, &b, &c);
    let (q2, p2) = expected_score(&b, &a, &mirrored(&c));
    check_eq("first expectation", p, p2);
    check_eq("second expectation", q, q2);
}
pub fn h_c06_sticko() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let (x, y) = sticko(&a, &b, &o, &c);
    let (up, down) = (a.rating + c.gamma, b.rating - c.gamma);
    let first = after(&a, &c, 1.0, info(up, &b), gain(up, &b, score(o), c.beta), b.rating);
    let second = after(&b, &c, 1.0, info(down, &a), gain(down, &a, 1.0 - score(o), c.beta), a.rating);
    check_eq("first rating", x.rating, first.0);
    check_eq("first deviation", x.deviation, first.1);
    check_eq("second rating", y.rating, second.0);
    check_eq("second deviation", y.deviation, second.1);
    let both = (a.deviation * a.deviation + b.deviation * b.deviation).sqrt();
    check_eq("expectation", expected_score(&a, &b, &c).0, glicko_e(up, b.rating, both));
}
pub fn h_c06_sticko_decay() {
    let (a, c) = (player("a", "ad"), config());
    let x = decay_deviation(&a, &c);
    check_eq("decay keeps the rating", x.rating, a.rating);
    check_eq("decayed deviation", x.deviation, pre(a.deviation, c.c));
}
pub fn h_c07_sticko() {
    let (a, c) = (player("a", "ad"), config());
    let res = results();
    assume(!res.is_empty());
    let n = sticko_rating_period(&a, &res, &c);
    let mut information = 0.0;
    let mut sum = 0.0;
    let mut opponents = 0.0;
    for (o, s, white) in &res {
        let up = a.rating + side(*white, c.gamma);
        information += info(up, o);
        sum += gain(up, o, score(*s), c.beta);
        opponents += o.rating;
    }
    let x = after(&a, &c, res.len() as f64, information, sum, opponents);
    check_eq("rating", n.rating, x.0);
    check_eq("deviation", n.deviation, x.1);
}
pub fn h_c08_sticko_empty() {
    let (a, c) = (player("a", "ad"), config());
    let n = sticko_rating_period(&a, &[], &c);
    check_eq("nothing played, rating unchanged", n.rating, a.rating);
    check_eq("nothing played, decay", n.deviation, decay_deviation(&a, &c).deviation);
}
pub fn h_c08_sticko_one() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let (x, y) = (sticko_rating_period(&a, &[(b, o, true)], &c), sticko(&a, &b, &o, &c).0);
    check_eq("one result is one match", x.rating, y.rating);
    check_eq("one result is one match, deviation", x.deviation, y.deviation);
    let (x, y) = (sticko_rating_period(&a, &[(b, o, false)], &c), sticko(&b, &a, &flip(o), &c).1);
    check_eq("one result is one match, second side", x.rating, y.rating);
    check_eq("one result is one match, second side, deviation", x.deviation, y.deviation);
}
pub fn h_c08_sticko_order() {
    let (a, c) = (player("a", "ad"), config());
    let s = results();
    let x = (player("x", "xd"), any_outcome("xo"), any_bool("xw"));
    let y = (player("y", "yd"), any_outcome("yo"), any_bool("yw"));
    let mut one = vec![x, y];
    one.extend(s.iter().copied());
    let mut two = vec![y, x];
    two.extend(s.iter().copied());
    let (p, q) = (sticko_rating_period(&a, &one, &c), sticko_rating_period(&a, &two, &c));
    check_eq("first two results exchanged", p.rating, q.rating);
    check_eq("first two results exchanged, deviation", p.deviation, q.deviation);
    let mut three = vec![x];
    three.extend(s.iter().copied());
    let mut four = s.clone();
    four.push(x);
    let (p, q) = (sticko_rating_period(&a, &three, &c), sticko_rating_period(&a, &four, &c));
    check_eq("first result moved to the end", p.rating, q.rating);
    check_eq("first result moved to the end, deviation", p.deviation, q.deviation);
}
pub fn h_c09_sticko() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let (x, y) = sticko(&a, &b, &any_outcome("o"), &c);
    check_lt("first deviation is positive", 0.0, x.deviation);
    check_lt("second deviation is positive", 0.0, y.deviation);
    let (u, v) = (decay_deviation(&a, &c).deviation, decay_deviation(&b, &c).deviation);
    check_le("playing reduces the increased deviation of the first", x.deviation, (u * u + c.h).sqrt());
    check_le("playing reduces the increased deviation of the second", y.deviation, (v * v + c.h).sqrt());
    check_le("first deviation at most 350", x.deviation, 350.0);
    check_le("second deviation at most 350", y.deviation, 350.0);
    check_le("inactivity does not reduce the deviation", a.deviation.min(350.0), u);
    check_le("inactivity leaves it at most 350", u, 350.0);
}
pub fn h_c09_sticko_period() {
    let (a, c) = (player("a", "ad"), config());
    let res = results();
    let x = sticko_rating_period(&a, &res, &c);
    check_lt("deviation is positive", 0.0, x.deviation);
    let u = decay_deviation(&a, &c).deviation;
    check_le("playing reduces the increased deviation", x.deviation, (u * u + c.h * res.len() as f64).sqrt());
    check_le("deviation at most 350", x.deviation, 350.0);
}
pub fn h_c14_sticko() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let _ = sticko(&a, &b, &any_outcome("o"), &c);
    let _ = expected_score(&a, &b, &c);
    let _ = confidence_interval(&a);
    let _ = decay_deviation(&a, &c);
    let res = results();
    let _ = sticko_rating_period(&a, &res, &c);
    let opp = any_vec("opp", 0, MANY, |_| (player("p", "pd"), any_bool("w")));
    let _ = expected_score_rating_period(&a, &opp, &c);
}
pub fn h_c15_sticko() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let (x, y) = sticko(&a, &b, &any_outcome("o"), &c);
    check_finite("first rating", x.rating);
    check_finite("second rating", y.rating);
    check_finite("first deviation", x.deviation);
    check_finite("second deviation", y.deviation);
    let (p, q) = expected_score(&a, &b, &c);
    check_finite("first expectation", p);
    check_finite("second expectation", q);
    check_finite("decayed deviation", decay_deviation(&a, &c).deviation);
    let (l, h) = confidence_interval(&a);
    check_finite("lower end of the interval", l);
    check_finite("upper end of the interval", h);
}
pub fn h_c15_sticko_period() {
    let (a, c) = (player("a", "ad"), config());
    let res = results();
    let x = sticko_rating_period(&a, &res, &c);
    check_finite("rating", x.rating);
    check_finite("deviation", x.deviation);
}
pub fn h_c16_sticko() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let s: Sticko = RatingSystem::new(c);
    let (x, y) = RatingSystem::rate(&s, &a, &b, &o);
    let (x2, y2) = sticko(&a, &b, &o, &c);
    check_eq("rate, first", x.rating, x2.rating);
    check_eq("rate, second", y.rating, y2.rating);
    check_eq("rate, first deviation", x.deviation, x2.deviation);
    check_eq("rate, second deviation", y.deviation, y2.deviation);
    let (p, q) = RatingSystem::expected_score(&s, &a, &b);
    let (p2, q2) = expected_score(&a, &b, &c);
    check_eq("expectation, first", p, p2);
    check_eq("expectation, second", q, q2);
}
pub fn h_c16_sticko_period() {
    let (a, c) = (player("a", "ad"), config());
    let s: Sticko = RatingPeriodSystem::new(c);
    let res = any_vec("res", 0, MANY, |_| (player("o", "od"), any_outcome("s")));
    let white: Vec<(StickoRating, Outcomes, bool)> = res.iter().map(|r| (r.0, r.1, true)).collect();
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &res), sticko_rating_period(&a, &white, &c));
    check_eq("rate", x.rating, y.rating);
    check_eq("rate, deviation", x.deviation, y.deviation);
    let opp = any_vec("opp", 0, MANY, |_| player("p", "pd"));
    let p = RatingPeriodSystem::expected_score(&s, &a, &opp);
    check_int_eq("one expectation per opponent", p.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("expectation", p[i], expected_score(&a, &opp[i], &c).0));
}
pub fn h_c17_sticko() {
    let (r, d, v) = (any_f64("r", -10000.0, 10000.0), any_f64("d", 0.0, 1000.0), any_f64("v", 0.0, 1.0));
    check_eq("new", StickoRating::new().rating, 1500.0);
    check_eq("new, deviation", StickoRating::new().deviation, 350.0);
    check_eq("default", StickoRating::default().rating, 1500.0);
    check_eq("default, deviation", StickoRating::default().deviation, 350.0);
    for k in [StickoConfig::new(), StickoConfig::default()] {
        check_eq("default h", k.h, 10.0);
        check_eq("default beta", k.beta, 0.0);
        check_eq("default lambda", k.lambda, 2.0);
        check_eq("default gamma", k.gamma, 0.0);
        check_eq("default c", k.c, 10.0);
    }
    let x = StickoRating::from((r, d));
    check_eq("from pair", x.rating, r);
    check_eq("from pair, deviation", x.deviation, d);
    let x: StickoRating = Rating::new(Some(r), Some(d));
    check_eq("trait new", x.rating, r);
    check_eq("trait new, deviation", x.deviation, d);
    check_eq("trait getter", Rating::rating(&x), r);
    check("trait uncertainty", Rating::uncertainty(&x) == Some(d));
    let x: StickoRating = Rating::new(None, None);
    check_eq("trait new without a rating", x.rating, 1500.0);
    check_eq("trait new without a deviation", x.deviation, 350.0);
    let x = StickoRating::from(Glicko2Rating { rating: r, deviation: d, volatility: v });
    check_eq("from Glicko-2", x.rating, r);
    check_eq("from Glicko-2, deviation", x.deviation, d);
    let x = StickoRating::from(GlickoBoostRating { rating: r, deviation: d });
    check_eq("from Glicko-Boost", x.rating, r);
    check_eq("from Glicko-Boost, deviation", x.deviation, d);
    let x = StickoRating::from(GlickoRating { rating: r, deviation: d });
    check_eq("from Glicko", x.rating, r);
    check_eq("from Glicko, deviation", x.deviation, d);
}
pub fn h_c20_sticko() {
    let a = player("a", "ad");
    let (l, h) = confidence_interval(&a);
    check_eq("lower end", l, a.rating - 1.96 * a.deviation);
    check_eq("upper end", h, a.rating + 1.96 * a.deviation);
    check_le("ordered", l, h);
}
fn neutral() -> (StickoConfig, skillratings::glicko::GlickoConfig) {
    let c = any_f64("c", 0.0, 200.0);
    (StickoConfig { h: 0.0, beta: 0.0, lambda: 0.0, gamma: 0.0, c }, skillratings::glicko::GlickoConfig { c })
}
pub fn h_c19_sticko() {
    let (a, b) = (player("a", "ad"), player("b", "bd"));
    let (c, g) = neutral();
    let o = any_outcome("o");
    let (x, y) = sticko(&a, &b, &o, &c);
    let (u, v) = skillratings::glicko::glicko(&a.into(), &b.into(), &o, &g);
    check_eq("first rating as in Glicko", x.rating, u.rating);
    check_eq("first deviation as in Glicko", x.deviation, u.deviation);
    check_eq("second rating as in Glicko", y.rating, v.rating);
    check_eq("second deviation as in Glicko", y.deviation, v.deviation);
    check_eq("expectation as in Glicko", expected_score(&a, &b, &c).0, skillratings::glicko::expected_score(&a.into(), &b.into()).0);
    check_eq("decay as in Glicko", decay_deviation(&a, &c).deviation, skillratings::glicko::decay_deviation(&a.into(), &g).deviation);
}
pub fn h_c19_sticko_period() {
    let a = player("a", "ad");
    let (c, g) = neutral();
    let res = results();
    let same: Vec<(GlickoRating, Outcomes)> = res.iter().map(|r| (r.0.into(), r.1)).collect();
    let x = sticko_rating_period(&a, &res, &c);
    let y = skillratings::glicko::glicko_rating_period(&a.into(), &same, &g);
    check_eq("period rating as in Glicko", x.rating, y.rating);
    check_eq("period deviation as in Glicko", x.deviation, y.deviation);
}
pub fn h_c19_sticko_colour() {
    let a = player("a", "ad");
    let c = StickoConfig { gamma: 0.0, ..config() };
    let res = results();
    let other: Vec<(StickoRating, Outcomes, bool)> = res.iter().map(|r| (r.0, r.1, !r.2)).collect();
    let (x, y) = (sticko_rating_period(&a, &res, &c), sticko_rating_period(&a, &other, &c));
    check_eq("colours do not matter without an advantage", x.rating, y.rating);
    check_eq("colours do not matter without an advantage, deviation", x.deviation, y.deviation);
}
