use super::common::*;
use crate::rt::*;
use skillratings::elo::EloRating;
use skillratings::fifa::*;
use skillratings::{Outcomes, Rating, RatingPeriodSystem, RatingSystem};

fn player(name: &str) -> FifaRating {
    FifaRating { rating: any_f64(name, -10000.0, 10000.0) }
}
fn config() -> FifaConfig {
    FifaConfig { importance: any_f64("i", 0.0, 100.0), knockout: any_bool("ko"), penalties: any_bool("pen") }
}
fn results() -> Vec<(FifaRating, Outcomes, FifaConfig)> {
    any_vec("res", 0, MANY, |_| {
        (
            player("o"),
            any_outcome("s"),
            FifaConfig { importance: any_f64("ri", 0.0, 100.0), knockout: any_bool("rko"), penalties: any_bool("rpen") },
        )
    })
}
fn e(a: f64, b: f64) -> f64 {
    logistic(a, b, 600.0)
}
/// points of a match: a shootout counts 0.75 for its winner and 0.5 for its loser
fn points(o: Outcomes, c: &FifaConfig) -> f64 {
    if c.penalties {
        if o == Outcomes::WIN {
            0.75
        } else {
            0.5
        }
    } else {
        score(o)
    }
}
fn after(r: f64, opp: f64, o: Outcomes, c: &FifaConfig) -> f64 {
    let n = r + c.importance * (points(o, c) - e(r, opp));
    if c.knockout {
        n.max(r)
    } else {
        n
    }
}

pub fn h_c01_fifa() {
    let (x, y) = expected_score(&player("a"), &player("b"));
    probabilities(x, y);
}
pub fn h_c02_fifa() {
    let a = player("a");
    let opp = any_vec("opp", 0, MANY, |_| player("o"));
    let r = expected_score_rating_period(&a, &opp);
    check_int_eq("one expectation per opponent", r.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("same as head to head", r[i], expected_score(&a, &opp[i]).0));
}
pub fn h_c03_fifa() {
    let (a, b, c) = (player("a"), player("b"), config());
    let w = fifa(&a, &b, &Outcomes::WIN, &c);
    let d = fifa(&a, &b, &Outcomes::DRAW, &c);
    let l = fifa(&a, &b, &Outcomes::LOSS, &c);
    ordered(w.0.rating, d.0.rating, l.0.rating);
    ordered(l.1.rating, d.1.rating, w.1.rating);
}
pub fn h_c04_fifa() {
    let (a, b, c) = (player("a"), player("b"), config());
    let o = any_outcome("o");
    let (x, y) = fifa(&a, &b, &o, &c);
    check_le("first team moves at most the importance", (x.rating - a.rating).abs(), c.importance);
    check_le("second team moves at most the importance", (y.rating - b.rating).abs(), c.importance);
    if !c.knockout && !c.penalties {
        check_eq("the sum of both ratings is preserved", x.rating + y.rating, a.rating + b.rating);
    }
}
pub fn h_c05_fifa() {
    let (a, b, c) = (player("a"), player("b"), config());
    let o = any_outcome("o");
    let (x, y) = fifa(&a, &b, &o, &c);
    let (y2, x2) = fifa(&b, &a, &flip(o), &c);
    check_eq("first team", x.rating, x2.rating);
    check_eq("second team", y.rating, y2.rating);
    let (p, q) = expected_score(&a, &b);
    let (q2, p2) = expected_score(&b, &a);
    check_eq("first expectation", p, p2);
    check_eq("second expectation", q, q2);
}
pub fn h_c06_fifa() {
    let (a, b, c) = (player("a"), player("b"), config());
    let o = any_outcome("o");
    let (x, y) = fifa(&a, &b, &o, &c);
    check_eq("first rating", x.rating, after(a.rating, b.rating, o, &c));
    check_eq("second rating", y.rating, after(b.rating, a.rating, flip(o), &c));
    check_eq("expectation", expected_score(&a, &b).0, e(a.rating, b.rating));
}
pub fn h_c07_fifa() {
    let a = player("a");
    let res = results();
    let n = fifa_rating_period(&a, &res);
    let mut r = a.rating;
    for (o, s, c) in &res {
        r = after(r, o.rating, *s, c);
    }
    check_eq("rating after all results", n.rating, r);
}
pub fn h_c08_fifa_empty() {
    let a = player("a");
    check_eq("nothing played, nothing changed", fifa_rating_period(&a, &[]).rating, a.rating);
}
pub fn h_c08_fifa_one() {
    let (a, b, c) = (player("a"), player("b"), config());
    let o = any_outcome("o");
    check_eq("one result is one match", fifa_rating_period(&a, &[(b, o, c)]).rating, fifa(&a, &b, &o, &c).0.rating);
}
pub fn h_c08_fifa_fold() {
    let a = player("a");
    let res = results();
    let n = fifa_rating_period(&a, &res);
    let mut r = a;
    for (o, s, c) in &res {
        r = fifa(&r, o, s, c).0;
    }
    check_eq("a period is its matches in order", n.rating, r.rating);
}
pub fn h_c10_fifa_knockout() {
    let (a, b, c) = (player("a"), player("b"), config());
    assume(c.knockout);
    let (x, y) = fifa(&a, &b, &any_outcome("o"), &c);
    check_le("no loss in a knockout match, first", a.rating, x.rating);
    check_le("no loss in a knockout match, second", b.rating, y.rating);
}
pub fn h_c10_fifa_knockout_period() {
    let a = player("a");
    let res = any_vec("res", 0, MANY, |_| {
        (
            player("o"),
            any_outcome("s"),
            FifaConfig { importance: any_f64("ri", 0.0, 100.0), knockout: true, penalties: any_bool("rpen") },
        )
    });
    check_le("no loss in knockout matches", a.rating, fifa_rating_period(&a, &res).rating);
}
pub fn h_c10_fifa_penalties() {
    let (a, b) = (player("a"), player("b"));
    let c = FifaConfig { importance: any_f64("i", 0.0, 100.0), knockout: false, penalties: true };
    let p = e(a.rating, b.rating);
    let w = fifa(&a, &b, &Outcomes::WIN, &c);
    check_eq("shootout winner scores 0.75", w.0.rating, a.rating + c.importance * (0.75 - p));
    check_eq("shootout loser scores 0.5", w.1.rating, b.rating + c.importance * (0.5 - (1.0 - p)));
    let l = fifa(&a, &b, &Outcomes::LOSS, &c);
    check_eq("shootout winner scores 0.75", l.1.rating, b.rating + c.importance * (0.75 - (1.0 - p)));
    check_eq("shootout loser scores 0.5", l.0.rating, a.rating + c.importance * (0.5 - p));
    let w = fifa_rating_period(&a, &[(b, Outcomes::WIN, c)]);
    check_eq("shootout winner scores 0.75 in a period", w.rating, a.rating + c.importance * (0.75 - p));
    let l = fifa_rating_period(&a, &[(b, Outcomes::LOSS, c)]);
    check_eq("shootout loser scores 0.5 in a period", l.rating, a.rating + c.importance * (0.5 - p));
}
pub fn h_c14_fifa() {
    let (a, b, c) = (player("a"), player("b"), config());
    let _ = fifa(&a, &b, &any_outcome("o"), &c);
    let _ = expected_score(&a, &b);
    let res = results();
    let _ = fifa_rating_period(&a, &res);
    let opp = any_vec("opp", 0, MANY, |_| player("p"));
    let _ = expected_score_rating_period(&a, &opp);
}
pub fn h_c15_fifa() {
    let (a, b, c) = (player("a"), player("b"), config());
    let (x, y) = fifa(&a, &b, &any_outcome("o"), &c);
    check_finite("first rating", x.rating);
    check_finite("second rating", y.rating);
    let (p, q) = expected_score(&a, &b);
    check_finite("first expectation", p);
    check_finite("second expectation", q);
}
pub fn h_c15_fifa_period() {
    let a = player("a");
    let res = any_vec("res", 0, 100, |_| (player("o"), any_outcome("s"), config()));
    check_finite("rating", fifa_rating_period(&a, &res).rating);
}
pub fn h_c16_fifa() {
    let (a, b, c) = (player("a"), player("b"), config());
    let o = any_outcome("o");
    let s: Fifa = RatingSystem::new(c);
    let (x, y) = RatingSystem::rate(&s, &a, &b, &o);
    let (x2, y2) = fifa(&a, &b, &o, &c);
    check_eq("rate, first", x.rating, x2.rating);
    check_eq("rate, second", y.rating, y2.rating);
    let (p, q) = RatingSystem::expected_score(&s, &a, &b);
    let (p2, q2) = expected_score(&a, &b);
    check_eq("expectation, first", p, p2);
    check_eq("expectation, second", q, q2);
}
pub fn h_c16_fifa_period() {
    let (a, c) = (player("a"), config());
    let s: Fifa = RatingPeriodSystem::new(c);
    let res = any_vec("res", 0, MANY, |_| (player("o"), any_outcome("s")));
    let full: Vec<(FifaRating, Outcomes, FifaConfig)> = res.iter().map(|(o, s)| (*o, *s, c)).collect();
    check_eq("rate", RatingPeriodSystem::rate(&s, &a, &res).rating, fifa_rating_period(&a, &full).rating);
    let opp = any_vec("opp", 0, MANY, |_| player("p"));
    let p = RatingPeriodSystem::expected_score(&s, &a, &opp);
    let q = expected_score_rating_period(&a, &opp);
    check_int_eq("one expectation per opponent", p.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("expectation", p[i], q[i]));
}
pub fn h_c17_fifa() {
    check_eq("new", FifaRating::new().rating, 1000.0);
    check_eq("default", FifaRating::default().rating, 1000.0);
    let c = FifaConfig::new();
    check_eq("default importance", c.importance, 10.0);
    check("default stage", !c.knockout && !c.penalties);
    let c = FifaConfig::default();
    check_eq("default importance", c.importance, 10.0);
    check("default stage", !c.knockout && !c.penalties);
    let r = any_f64("r", -10000.0, 10000.0);
    check_eq("from", FifaRating::from(r).rating, r);
    let x: FifaRating = Rating::new(Some(r), None);
    check_eq("trait new", x.rating, r);
    check_eq("trait getter", Rating::rating(&x), r);
    check("no uncertainty", Rating::uncertainty(&x).is_none());
    let x: FifaRating = Rating::new(None, None);
    check_eq("trait new without a rating", x.rating, 1000.0);
    let f = FifaRating::from(EloRating { rating: r });
    check_eq("from Elo", f.rating, r);
    check_eq("to Elo", EloRating::from(f).rating, r);
}
