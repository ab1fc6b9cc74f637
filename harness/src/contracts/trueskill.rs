use super::common::*;
use crate::rt::*;
use skillratings::trueskill::*;
use skillratings::weng_lin::WengLinRating;
use skillratings::{MultiTeamOutcome, MultiTeamRatingSystem, Outcomes, Rating, RatingPeriodSystem, RatingSystem, TeamRatingSystem};

type Team = Vec<TrueSkillRating>;

fn player(name: &str, dev: &str) -> TrueSkillRating {
    TrueSkillRating { rating: any_f64(name, -50.0, 100.0), uncertainty: any_f64(dev, 0.5, 10.0) }
}
fn config() -> TrueSkillConfig {
    TrueSkillConfig { draw_probability: any_f64("draw", 0.02, 0.9), beta: any_f64("beta", 1.0, 10.0), dynamics_factor: any_f64("tau", 0.0, 1.0) }
}
/// players whose difference stays clear of the far tails, for the laws of the exact normal distribution
fn near(name: &str, dev: &str) -> TrueSkillRating {
    TrueSkillRating { rating: any_f64(name, 15.0, 35.0), uncertainty: any_f64(dev, 1.0, 9.0) }
}
fn near_config() -> TrueSkillConfig {
    TrueSkillConfig { draw_probability: any_f64("draw", 0.05, 0.8), beta: any_f64("beta", 3.0, 6.0), dynamics_factor: any_f64("tau", 0.0, 0.5) }
}
fn results() -> Vec<(TrueSkillRating, Outcomes)> {
    any_vec("res", 0, MANY, |_| (player("o", "od"), any_outcome("s")))
}
fn team_a() -> Team {
    any_vec("ta", 1, MANY, |_| player("a", "ad"))
}
fn team_b() -> Team {
    any_vec("tb", 1, MANY, |_| player("b", "bd"))
}
fn team_c() -> Team {
    any_vec("tc", 1, MANY, |_| player("c", "cd"))
}
fn rank(name: &str) -> usize {
    any_usize(name, 0, 1 << 20)
}
fn ranked(r: usize) -> MultiTeamOutcome {
    MultiTeamOutcome::new(r)
}
fn outcome(r: usize, s: usize) -> Outcomes {
    if r < s {
        Outcomes::WIN
    } else if r > s {
        Outcomes::LOSS
    } else {
        Outcomes::DRAW
    }
}
fn ratings(t: &[TrueSkillRating]) -> f64 {
    let mut r = 0.0;
    for p in t {
        r += p.rating;
    }
    r
}
fn variance(t: &[TrueSkillRating]) -> f64 {
    let mut r = 0.0;
    for p in t {
        r += p.uncertainty * p.uncertainty;
    }
    r
}

/// complementary error function, the published rational Chebyshev approximation
fn erfc(x: f64) -> f64 {
    let z = x.abs();
    let t = 1.0 / (1.0 + 0.5 * z);
    let p = -1.26551223
        + t * (1.00002368
            + t * (0.37409196
                + t * (0.09678418
                    + t * (-0.18628806 + t * (0.27886807 + t * (-1.13520398 + t * (1.48851587 + t * (-0.82215223 + t * 0.17087277))))))));
    let r = t * (p - z * z).exp();
    if x < 0.0 {
        2.0 - r
    } else {
        r
    }
}
fn phi(x: f64) -> f64 {
    0.5 * erfc(-x / 2f64.sqrt())
}
fn density(x: f64) -> f64 {
    (-x * x / 2.0).exp() / (2.0 * std::f64::consts::PI).sqrt()
}
/// inverse of the complementary error function on (0, 1]: rational start, two steps
fn inverse_erfc(y: f64) -> f64 {
    let t = (-2.0 * (y / 2.0).ln()).sqrt();
    let mut x = -(1.0 / 2f64.sqrt()) * ((2.30753 + t * 0.27061) / (1.0 + t * (0.99229 + t * 0.04481)) - t);
    for _ in 0..2 {
        let e = erfc(x) - y;
        x += e / (2.0 / std::f64::consts::PI.sqrt() * (-x * x).exp() - x * e);
    }
    x
}
/// draw margin for n players: the inverse normal distribution at (p + 1) / 2
fn margin(p: f64, beta: f64, n: f64) -> f64 {
    // erfc^-1(p + 1) = -erfc^-1(1 - p)
    2f64.sqrt() * inverse_erfc(1.0 - p) * n.sqrt() * beta
}
const TINY: f64 = 2.222758749e-162;
/// mean and variance corrections of a truncated Gaussian: (v, w)
fn decided(d: f64, e: f64) -> (f64, f64) {
    let n = phi(d - e);
    if n < TINY {
        (e - d, if d < 0.0 { 1.0 } else { 0.0 })
    } else {
        let v = density(d - e) / n;
        (v, v * (v + d - e))
    }
}
fn drawn(d: f64, e: f64) -> (f64, f64) {
    let z = d.abs();
    let n = phi(e - z) - phi(-e - z);
    if n < TINY {
        (if d < 0.0 { -d - e } else { -d + e }, 1.0)
    } else {
        let x = (density(-e - z) - density(e - z)) / n;
        let v = if d < 0.0 { -x } else { x };
        (v, v * v + ((e - z) * density(e - z) + (e + z) * density(-e - z)) / n)
    }
}
/// (v, w) for the first side, v already signed
fn corrections(o: Outcomes, d: f64, e: f64) -> (f64, f64) {
    match o {
        Outcomes::WIN => decided(d, e),
        Outcomes::LOSS => {
            let (v, w) = decided(-d, e);
            (-v, w)
        }
        Outcomes::DRAW => drawn(d, e),
    }
}
/// new rating and new variance
fn updated(p: &TrueSkillRating, sign: f64, v: f64, w: f64, c: f64, tau: f64) -> (f64, f64) {
    let s = p.uncertainty * p.uncertainty + tau * tau;
    (p.rating + sign * s / c * v, s * (1.0 - s / (c * c) * w))
}
fn single(a: &TrueSkillRating, b: &TrueSkillRating, o: Outcomes, k: &TrueSkillConfig) -> (f64, f64) {
    let c = (2.0 * k.beta * k.beta + a.uncertainty * a.uncertainty + b.uncertainty * b.uncertainty).sqrt();
    let e = margin(k.draw_probability, k.beta, 2.0);
    let (v, w) = corrections(o, (a.rating - b.rating) / c, e / c);
    updated(a, 1.0, v, w, c, k.dynamics_factor)
}

pub fn h_c01_trueskill() {
    let (x, y) = expected_score(&player("a", "ad"), &player("b", "bd"), &config());
    probabilities(x, y);
}
pub fn h_c01_trueskill_teams() {
    let (a, b) = (team_a(), team_b());
    let (x, y) = expected_score_two_teams(&a, &b, &config());
    probabilities(x, y);
}
pub fn h_c01_trueskill_multi() {
    let (a, b, c) = (team_a(), team_b(), team_c());
    let x = expected_score_multi_team(&[&a, &b, &c], &config());
    check_int_eq("one expectation per team", x.len(), 3);
    for i in 0..3 {
        check_le("expectation is at least 0", 0.0, x[i]);
        check_le("expectation is at most 1", x[i], 1.0);
    }
    check_eq("expectations sum to 1", x[0] + x[1] + x[2], 1.0);
    let x = expected_score_multi_team(&[&a, &b], &config());
    check_int_eq("one expectation per team", x.len(), 2);
    check_eq("expectations sum to 1", x[0] + x[1], 1.0);
    let x = expected_score_multi_team(&[&a], &config());
    check_int_eq("one expectation per team", x.len(), 1);
    check_eq("the only team wins", x[0], 1.0);
}
pub fn h_c01_trueskill_many() {
    let teams = any_vec("teams", 1, MANY, |_| any_vec("t", 1, MANY, |_| player("a", "ad")));
    let refs: Vec<&[TrueSkillRating]> = teams.iter().map(|t| &t[..]).collect();
    let x = expected_score_multi_team(&refs, &config());
    check_int_eq("one expectation per team", x.len(), teams.len());
    for_each_index(teams.len(), |i| {
        check_le("expectation is at least 0", 0.0, x[i]);
        check_le("expectation is at most 1", x[i], 1.0);
    });
    let mut sum = 0.0;
    for e in &x {
        sum += e;
    }
    check_eq("expectations sum to 1", sum, 1.0);
}
pub fn h_c02_trueskill() {
    let (a, c) = (player("a", "ad"), config());
    let opp = any_vec("opp", 0, MANY, |_| player("o", "od"));
    let r = expected_score_rating_period(&a, &opp, &c);
    check_int_eq("one expectation per opponent", r.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("same as head to head", r[i], expected_score(&a, &opp[i], &c).0));
}
pub fn h_c03_trueskill() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let w = trueskill(&a, &b, &Outcomes::WIN, &c);
    let l = trueskill(&a, &b, &Outcomes::LOSS, &c);
    check_le("winning does not cost rating", a.rating, w.0.rating);
    check_le("losing does not gain rating", l.0.rating, a.rating);
    check_le("winning does not cost rating", b.rating, l.1.rating);
    check_le("losing does not gain rating", w.1.rating, b.rating);
}
pub fn h_c03_trueskill_draw() {
    let (a, b, c) = (near("a", "ad"), near("b", "bd"), near_config());
    let w = trueskill(&a, &b, &Outcomes::WIN, &c);
    let d = trueskill(&a, &b, &Outcomes::DRAW, &c);
    let l = trueskill(&a, &b, &Outcomes::LOSS, &c);
    ordered(w.0.rating, d.0.rating, l.0.rating);
    ordered(l.1.rating, d.1.rating, w.1.rating);
}
pub fn h_c03_trueskill_teams() {
    let (a, b, c) = (team_a(), team_b(), config());
    let w = trueskill_two_teams(&a, &b, &Outcomes::WIN, &c);
    let l = trueskill_two_teams(&a, &b, &Outcomes::LOSS, &c);
    for_each_index(a.len(), |i| {
        check_le("winning does not cost rating", a[i].rating, w.0[i].rating);
        check_le("losing does not gain rating", l.0[i].rating, a[i].rating);
    });
    for_each_index(b.len(), |i| {
        check_le("winning does not cost rating", b[i].rating, l.1[i].rating);
        check_le("losing does not gain rating", w.1[i].rating, b[i].rating);
    });
}
/// teams of the sizes the bounded multi-team contracts cover
fn duo(name: &str, dev: &str) -> Team {
    any_vec(name, 1, 3, |_| near(name, dev))
}
pub fn h_c03_trueskill_multi() {
    let (a, b, c) = (duo("a", "ad"), duo("b", "bd"), duo("c", "cd"));
    let k = near_config();
    let (r, s, t) = (any_usize("ra", 0, 3), any_usize("rb", 0, 3), any_usize("rc", 0, 3));
    let x = trueskill_multi_team(&[(&a, ranked(r)), (&b, ranked(s)), (&c, ranked(t))], &k, None).unwrap();
    if r < s && r < t {
        for i in 0..a.len() {
            check_le("the winner does not lose rating", a[i].rating, x[0][i].rating);
        }
    }
    if r > s && r > t {
        for i in 0..a.len() {
            check_le("the last does not gain rating", x[0][i].rating, a[i].rating);
        }
    }
}
pub fn h_c05_trueskill() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let (x, y) = trueskill(&a, &b, &o, &c);
    let (y2, x2) = trueskill(&b, &a, &flip(o), &c);
    check_eq("first player", x.rating, x2.rating);
    check_eq("second player", y.rating, y2.rating);
    check_eq("first uncertainty", x.uncertainty, x2.uncertainty);
    check_eq("second uncertainty", y.uncertainty, y2.uncertainty);
    check_eq("match quality", match_quality(&a, &b, &c), match_quality(&b, &a, &c));
}
/// the approximation of the normal distribution is off by less than 1e-6 at 0
pub fn h_c05_trueskill_expect() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let (p, q) = expected_score(&a, &b, &c);
    let (q2, p2) = expected_score(&b, &a, &c);
    check_le("first expectation", (p - p2).abs(), 1e-6);
    check_le("second expectation", (q - q2).abs(), 1e-6);
}
pub fn h_c05_trueskill_teams() {
    let (a, b, c) = (team_a(), team_b(), config());
    let o = any_outcome("o");
    let (x, y) = trueskill_two_teams(&a, &b, &o, &c);
    let (y2, x2) = trueskill_two_teams(&b, &a, &flip(o), &c);
    for_each_index(a.len(), |i| {
        check_eq("first team", x[i].rating, x2[i].rating);
        check_eq("first team, uncertainty", x[i].uncertainty, x2[i].uncertainty);
    });
    for_each_index(b.len(), |i| {
        check_eq("second team", y[i].rating, y2[i].rating);
        check_eq("second team, uncertainty", y[i].uncertainty, y2[i].uncertainty);
    });
    check_eq("match quality", match_quality_two_teams(&a, &b, &c), match_quality_two_teams(&b, &a, &c));
}
pub fn h_c05_trueskill_teams_expect() {
    let (a, b, c) = (team_a(), team_b(), config());
    let (p, q) = expected_score_two_teams(&a, &b, &c);
    let (q2, p2) = expected_score_two_teams(&b, &a, &c);
    check_le("first expectation", (p - p2).abs(), 1e-6);
    check_le("second expectation", (q - q2).abs(), 1e-6);
}
pub fn h_c07_trueskill() {
    let (a, k) = (player("a", "ad"), config());
    let res = results();
    let n = trueskill_rating_period(&a, &res, &k);
    let mut x = a;
    for (o, s) in &res {
        let (r, u) = single(&x, o, *s, &k);
        x = TrueSkillRating { rating: r, uncertainty: u.sqrt() };
    }
    check_eq_tol("rating after all results", n.rating, x.rating, 1e-4);
    check_eq_tol("uncertainty after all results", n.uncertainty, x.uncertainty, 1e-4);
}
pub fn h_c08_trueskill_empty() {
    let (a, c) = (player("a", "ad"), config());
    let n = trueskill_rating_period(&a, &[], &c);
    check_eq("nothing played, nothing changed", n.rating, a.rating);
    check_eq("nothing played, uncertainty unchanged", n.uncertainty, a.uncertainty);
}
pub fn h_c08_trueskill_one() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let (x, y) = (trueskill_rating_period(&a, &[(b, o)], &c), trueskill(&a, &b, &o, &c).0);
    check_eq("one result is one match", x.rating, y.rating);
    check_eq("one result is one match, uncertainty", x.uncertainty, y.uncertainty);
}
pub fn h_c08_trueskill_fold() {
    let (a, c) = (player("a", "ad"), config());
    let res = results();
    let n = trueskill_rating_period(&a, &res, &c);
    let mut x = a;
    for (o, s) in &res {
        x = trueskill(&x, o, s, &c).0;
    }
    check_eq("a period is its matches one after the other", n.rating, x.rating);
    check_eq("a period is its matches one after the other, uncertainty", n.uncertainty, x.uncertainty);
}
/// what the dynamics factor makes of an uncertainty before the match
fn widened(p: &TrueSkillRating, k: &TrueSkillConfig) -> f64 {
    (p.uncertainty * p.uncertainty + k.dynamics_factor * k.dynamics_factor).sqrt()
}
pub fn h_c09_trueskill() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let (x, y) = trueskill(&a, &b, &any_outcome("o"), &c);
    check_lt("first uncertainty is positive", 0.0, x.uncertainty);
    check_lt("second uncertainty is positive", 0.0, y.uncertainty);
    check_le("playing does not add uncertainty", x.uncertainty, widened(&a, &c) + 1e-6);
    check_le("playing does not add uncertainty", y.uncertainty, widened(&b, &c) + 1e-6);
}
pub fn h_c09_trueskill_teams() {
    let (a, b, c) = (team_a(), team_b(), config());
    let (x, y) = trueskill_two_teams(&a, &b, &any_outcome("o"), &c);
    for_each_index(a.len(), |i| {
        check_lt("uncertainty is positive", 0.0, x[i].uncertainty);
        check_le("playing does not add uncertainty", x[i].uncertainty, widened(&a[i], &c) + 1e-6);
    });
    for_each_index(b.len(), |i| {
        check_lt("uncertainty is positive", 0.0, y[i].uncertainty);
        check_le("playing does not add uncertainty", y[i].uncertainty, widened(&b[i], &c) + 1e-6);
    });
}
pub fn h_c09_trueskill_multi() {
    let (a, b, c) = (duo("a", "ad"), duo("b", "bd"), duo("c", "cd"));
    let k = near_config();
    let (r, s, t) = (any_usize("ra", 0, 3), any_usize("rb", 0, 3), any_usize("rc", 0, 3));
    let x = trueskill_multi_team(&[(&a, ranked(r)), (&b, ranked(s)), (&c, ranked(t))], &k, None).unwrap();
    for i in 0..a.len() {
        check_lt("uncertainty is positive", 0.0, x[0][i].uncertainty);
        check_le("playing does not add uncertainty", x[0][i].uncertainty, widened(&a[i], &k) + 1e-6);
    }
    for i in 0..b.len() {
        check_lt("uncertainty is positive", 0.0, x[1][i].uncertainty);
        check_le("playing does not add uncertainty", x[1][i].uncertainty, widened(&b[i], &k) + 1e-6);
    }
}
pub fn h_c11_trueskill_teams() {
    let a = any_vec("ta", 0, MANY, |_| player("a", "ad"));
    let b = any_vec("tb", 0, MANY, |_| player("b", "bd"));
    let (x, y) = trueskill_two_teams(&a, &b, &any_outcome("o"), &config());
    check_int_eq("players of the first team", x.len(), a.len());
    check_int_eq("players of the second team", y.len(), b.len());
    if a.is_empty() || b.is_empty() {
        for_each_index(a.len(), |i| {
            check_eq("unchanged without opponents", x[i].rating, a[i].rating);
            check_eq("unchanged without opponents", x[i].uncertainty, a[i].uncertainty);
        });
        for_each_index(b.len(), |i| {
            check_eq("unchanged without opponents", y[i].rating, b[i].rating);
            check_eq("unchanged without opponents", y[i].uncertainty, b[i].uncertainty);
        });
    }
}
pub fn h_c11_trueskill_empty() {
    let a = any_vec("ta", 0, MANY, |_| player("a", "ad"));
    let b = any_vec("tb", 0, MANY, |_| player("b", "bd"));
    let (r, s, t) = (ranked(rank("ra")), ranked(rank("rb")), ranked(rank("rc")));
    let k = config();
    let none: [TrueSkillRating; 0] = [];
    let at = any_usize("at", 0, 2);
    let teams: [(&[TrueSkillRating], MultiTeamOutcome); 3] = match at {
        0 => [(&none, r), (&a, s), (&b, t)],
        1 => [(&a, s), (&none, r), (&b, t)],
        _ => [(&a, s), (&b, t), (&none, r)],
    };
    let x = trueskill_multi_team(&teams, &k, None).unwrap();
    check_int_eq("as many teams", x.len(), 3);
    let (p, q) = match at {
        0 => (1, 2),
        1 => (0, 2),
        _ => (0, 1),
    };
    check_int_eq("empty team", x[3 - p - q].len(), 0);
    check_int_eq("players", x[p].len(), a.len());
    check_int_eq("players", x[q].len(), b.len());
    for_each_index(a.len(), |i| {
        check_eq("unchanged with an empty team", x[p][i].rating, a[i].rating);
        check_eq("unchanged with an empty team", x[p][i].uncertainty, a[i].uncertainty);
    });
    for_each_index(b.len(), |i| {
        check_eq("unchanged with an empty team", x[q][i].rating, b[i].rating);
        check_eq("unchanged with an empty team", x[q][i].uncertainty, b[i].uncertainty);
    });
    let x = trueskill_multi_team(&[(&a, r)], &k, None).unwrap();
    check_int_eq("one team", x.len(), 1);
    check_int_eq("players of the only team", x[0].len(), a.len());
    for_each_index(a.len(), |i| {
        check_eq("unchanged without opponents", x[0][i].rating, a[i].rating);
        check_eq("unchanged without opponents", x[0][i].uncertainty, a[i].uncertainty);
    });
    check_int_eq("no teams", trueskill_multi_team(&[], &k, None).unwrap().len(), 0);
}
pub fn h_c11_trueskill_many() {
    let teams = any_vec("teams", 0, 5, |_| (any_vec("t", 0, 4, |_| near("a", "ad")), any_usize("r", 0, 4)));
    let refs: Vec<(&[TrueSkillRating], MultiTeamOutcome)> = teams.iter().map(|t| (&t.0[..], ranked(t.1))).collect();
    let x = trueskill_multi_team(&refs, &near_config(), None).unwrap();
    check_int_eq("as many teams", x.len(), teams.len());
    for i in 0..teams.len() {
        check_int_eq("as many players", x[i].len(), teams[i].0.len());
    }
}
pub fn h_c12_trueskill_single() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let (x, y) = trueskill(&a, &b, &o, &c);
    let (u, v) = trueskill_two_teams(&[a], &[b], &o, &c);
    check_eq("teams of one, first rating", u[0].rating, x.rating);
    check_eq("teams of one, first uncertainty", u[0].uncertainty, x.uncertainty);
    check_eq("teams of one, second rating", v[0].rating, y.rating);
    check_eq("teams of one, second uncertainty", v[0].uncertainty, y.uncertainty);
    check_eq("teams of one, expectation", expected_score_two_teams(&[a], &[b], &c).0, expected_score(&a, &b, &c).0);
    check_eq("teams of one, quality", match_quality_two_teams(&[a], &[b], &c), match_quality(&a, &b, &c));
}
pub fn h_c12_trueskill_expect() {
    let (a, b, c) = (team_a(), team_b(), config());
    check_le("two teams, expectation", (expected_score_multi_team(&[&a, &b], &c)[0] - expected_score_two_teams(&a, &b, &c).0).abs(), 1e-6);
}
/// the many-team factor graph adds the dynamics before the match, so both agree without dynamics
pub fn h_c12_trueskill_two() {
    let (a, b) = (duo("a", "ad"), duo("b", "bd"));
    let mut c = near_config();
    c.dynamics_factor = 0.0;
    let (r, s) = (any_usize("ra", 0, 2), any_usize("rb", 0, 2));
    let (x, y) = trueskill_two_teams(&a, &b, &outcome(r, s), &c);
    let z = trueskill_multi_team(&[(&a, ranked(r)), (&b, ranked(s))], &c, None).unwrap();
    for i in 0..a.len() {
        check_eq_tol("two teams, first rating", z[0][i].rating, x[i].rating, 1e-5);
        check_eq_tol("two teams, first uncertainty", z[0][i].uncertainty, x[i].uncertainty, 1e-5);
    }
    for i in 0..b.len() {
        check_eq_tol("two teams, second rating", z[1][i].rating, y[i].rating, 1e-5);
        check_eq_tol("two teams, second uncertainty", z[1][i].uncertainty, y[i].uncertainty, 1e-5);
    }
}
pub fn h_c12_trueskill_order() {
    let (a, b, c) = (duo("a", "ad"), duo("b", "bd"), duo("c", "cd"));
    let k = near_config();
    let (r, s, t) = (any_usize("ra", 0, 6), any_usize("rb", 0, 6), any_usize("rc", 0, 6));
    assume(r != s && s != t && r != t);
    let x = trueskill_multi_team(&[(&a, ranked(r)), (&b, ranked(s)), (&c, ranked(t))], &k, None).unwrap();
    let y = trueskill_multi_team(&[(&b, ranked(s)), (&a, ranked(r)), (&c, ranked(t))], &k, None).unwrap();
    let z = trueskill_multi_team(&[(&b, ranked(s)), (&c, ranked(t)), (&a, ranked(r))], &k, None).unwrap();
    let q = trueskill_multi_team(&[(&a, ranked(2 * r + 5)), (&b, ranked(2 * s + 5)), (&c, ranked(2 * t + 5))], &k, None).unwrap();
    for i in 0..a.len() {
        check_eq("first two teams exchanged, rating", y[1][i].rating, x[0][i].rating);
        check_eq("first two teams exchanged, uncertainty", y[1][i].uncertainty, x[0][i].uncertainty);
        check_eq("teams rotated, rating", z[2][i].rating, x[0][i].rating);
        check_eq("teams rotated, uncertainty", z[2][i].uncertainty, x[0][i].uncertainty);
        check_eq("only the order of ranks matters", q[0][i].rating, x[0][i].rating);
    }
    for i in 0..b.len() {
        check_eq("first two teams exchanged, rating", y[0][i].rating, x[1][i].rating);
        check_eq("teams rotated, rating", z[0][i].rating, x[1][i].rating);
        check_eq("only the order of ranks matters", q[1][i].rating, x[1][i].rating);
    }
    for i in 0..c.len() {
        check_eq("first two teams exchanged, rating", y[2][i].rating, x[2][i].rating);
        check_eq("teams rotated, rating", z[1][i].rating, x[2][i].rating);
        check_eq("only the order of ranks matters", q[2][i].rating, x[2][i].rating);
    }
}
pub fn h_c12_trueskill_players() {
    let (a, b, k) = (team_a(), team_b(), config());
    let p = player("p", "pd");
    let mut front = vec![p];
    front.extend(a.iter().copied());
    let mut back = a.clone();
    back.push(p);
    let o = any_outcome("o");
    let (x, u) = trueskill_two_teams(&front, &b, &o, &k);
    let (y, v) = trueskill_two_teams(&back, &b, &o, &k);
    check_eq("player moved to the end", x[0].rating, y[a.len()].rating);
    check_eq("player moved to the end, uncertainty", x[0].uncertainty, y[a.len()].uncertainty);
    for_each_index(b.len(), |i| check_eq("player moved to the end, opponents", u[i].rating, v[i].rating));
}
pub fn h_c12_trueskill_players_multi() {
    let (a, b, c, k) = (duo("a", "ad"), duo("b", "bd"), duo("c", "cd"), near_config());
    let p = near("p", "pd");
    let mut front = vec![p];
    front.extend(a.iter().copied());
    let mut back = a.clone();
    back.push(p);
    let (r, s, t) = (any_usize("ra", 0, 3), any_usize("rb", 0, 3), any_usize("rc", 0, 3));
    let x = trueskill_multi_team(&[(&front, ranked(r)), (&b, ranked(s)), (&c, ranked(t))], &k, None).unwrap();
    let y = trueskill_multi_team(&[(&back, ranked(r)), (&b, ranked(s)), (&c, ranked(t))], &k, None).unwrap();
    check_eq("player moved to the end, rating", x[0][0].rating, y[0][a.len()].rating);
    check_eq("player moved to the end, uncertainty", x[0][0].uncertainty, y[0][a.len()].uncertainty);
    for i in 0..a.len() {
        check_eq("player moved to the end, others", x[0][i + 1].rating, y[0][i].rating);
    }
    for i in 0..b.len() {
        check_eq("player moved to the end, opponents", x[1][i].rating, y[1][i].rating);
    }
}
/// the first offending place of the weights, in reading order
fn offence(teams: &[Team], weights: &[Vec<f64>]) -> Option<WeightError> {
    if teams.len() != weights.len() {
        return Some(WeightError::TeamAmount);
    }
    for t in 0..teams.len() {
        if teams[t].len() != weights[t].len() {
            return Some(WeightError::PlayerAmount { team: t });
        }
        for p in 0..weights[t].len() {
            if weights[t][p] < 0.0 {
                return Some(WeightError::Weight { team: t, player: p });
            }
        }
    }
    None
}
pub fn h_c13_trueskill_refuse() {
    let teams = any_vec("teams", 2, 3, |_| any_vec("t", 1, 2, |_| near("a", "ad")));
    let weights = any_vec("weights", 0, 3, |_| any_vec("w", 0, 3, |_| any_f64("weight", -1.0, 2.0)));
    let bad = offence(&teams, &weights);
    assume(bad.is_some());
    let refs: Vec<(&[TrueSkillRating], MultiTeamOutcome)> = teams.iter().map(|t| (&t[..], ranked(1))).collect();
    let ws: Vec<&[f64]> = weights.iter().map(|w| &w[..]).collect();
    let x = trueskill_multi_team(&refs, &near_config(), Some(&ws));
    check("rating refuses these weights and names the place", x.is_err() && x.err() == bad);
    let plain: Vec<&[TrueSkillRating]> = teams.iter().map(|t| &t[..]).collect();
    let q = match_quality_multi_team(&plain, &near_config(), Some(&ws));
    check("match quality refuses these weights and names the place", q.is_err() && q.err() == bad);
}
pub fn h_c13_trueskill_accept() {
    let teams = any_vec("teams", 2, 3, |_| any_vec("t", 1, 2, |_| (near("a", "ad"), any_f64("w", 0.1, 2.0))));
    let players: Vec<Team> = teams.iter().map(|t| t.iter().map(|p| p.0).collect()).collect();
    let weights: Vec<Vec<f64>> = teams.iter().map(|t| t.iter().map(|p| p.1).collect()).collect();
    let refs: Vec<(&[TrueSkillRating], MultiTeamOutcome)> = players.iter().map(|t| (&t[..], ranked(1))).collect();
    let ws: Vec<&[f64]> = weights.iter().map(|w| &w[..]).collect();
    check("valid weights are accepted", trueskill_multi_team(&refs, &near_config(), Some(&ws)).is_ok());
    let plain: Vec<&[TrueSkillRating]> = players.iter().map(|t| &t[..]).collect();
    check("valid weights are accepted for match quality", match_quality_multi_team(&plain, &near_config(), Some(&ws)).is_ok());
}
pub fn h_c13_trueskill_ones() {
    let (a, b) = (duo("a", "ad"), duo("b", "bd"));
    let k = near_config();
    let (r, s) = (any_usize("ra", 0, 2), any_usize("rb", 0, 2));
    let teams: [(&[TrueSkillRating], MultiTeamOutcome); 2] = [(&a, ranked(r)), (&b, ranked(s))];
    let (p, q) = (vec![1.0; a.len()], vec![1.0; b.len()]);
    let x = trueskill_multi_team(&teams, &k, None).unwrap();
    let y = trueskill_multi_team(&teams, &k, Some(&[&p, &q])).unwrap();
    for i in 0..a.len() {
        check_eq("no weights are weights of one", x[0][i].rating, y[0][i].rating);
        check_eq("no weights are weights of one, uncertainty", x[0][i].uncertainty, y[0][i].uncertainty);
    }
    for i in 0..b.len() {
        check_eq("no weights are weights of one", x[1][i].rating, y[1][i].rating);
    }
    let (u, v) = (match_quality_multi_team(&[&a, &b], &k, None), match_quality_multi_team(&[&a, &b], &k, Some(&[&p, &q])));
    check_eq("no weights are weights of one, match quality", u.unwrap(), v.unwrap());
}
/// somebody who did not take part
pub fn h_c13_trueskill_zero() {
    let (a, b) = (near("a", "ad"), near("b", "bd"));
    let z = near("z", "zd");
    let mut k = near_config();
    // the draw margin counts every listed player, so it is the same only without one
    k.draw_probability = 1e-12;
    let (r, s) = (0, 1 + any_usize("later", 0, 3));
    let first = any_bool("first");
    let (team, w): (Vec<TrueSkillRating>, Vec<f64>) = if first { (vec![z, a], vec![0.0, 1.0]) } else { (vec![a, z], vec![1.0, 0.0]) };
    let x = trueskill_multi_team(&[(&team, ranked(r)), (&[b], ranked(s))], &k, Some(&[&w, &[1.0]])).unwrap();
    let y = trueskill_multi_team(&[(&[a], ranked(r)), (&[b], ranked(s))], &k, None).unwrap();
    let (i, j) = if first { (1, 0) } else { (0, 1) };
    check_eq_tol("the others are rated as if the player was not there", x[0][i].rating, y[0][0].rating, 1e-5);
    check_eq_tol("the opponents are rated as if the player was not there", x[1][0].rating, y[1][0].rating, 1e-5);
    check_eq_tol("a player with weight zero keeps the rating", x[0][j].rating, z.rating, 1e-6);
    check_eq_tol("a player with weight zero learns nothing", x[0][j].uncertainty, widened(&z, &k), 1e-6);
}
pub fn h_c14_trueskill() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let _ = trueskill(&a, &b, &any_outcome("o"), &c);
    let _ = expected_score(&a, &b, &c);
    let _ = match_quality(&a, &b, &c);
    let _ = get_rank(&a);
}
pub fn h_c14_trueskill_lists() {
    let (a, c) = (player("a", "ad"), config());
    let res = results();
    let _ = trueskill_rating_period(&a, &res, &c);
    let opp = any_vec("opp", 0, MANY, |_| player("p", "pd"));
    let _ = expected_score_rating_period(&a, &opp, &c);
    let _ = match_quality_rating_period(&a, &opp, &c);
    let _ = trueskill_two_teams(&opp, &opp, &any_outcome("o"), &c);
    let _ = expected_score_two_teams(&opp, &opp, &c);
    let _ = match_quality_two_teams(&opp, &opp, &c);
}
pub fn h_c14_trueskill_expect() {
    let teams = any_vec("teams", 0, MANY, |_| any_vec("t", 0, MANY, |_| player("a", "ad")));
    let refs: Vec<&[TrueSkillRating]> = teams.iter().map(|t| &t[..]).collect();
    let _ = expected_score_multi_team(&refs, &config());
}
pub fn h_c14_trueskill_multi() {
    let teams = any_vec("teams", 0, 5, |_| (any_vec("t", 0, 3, |_| near("a", "ad")), any_usize("r", 0, 4)));
    let refs: Vec<(&[TrueSkillRating], MultiTeamOutcome)> = teams.iter().map(|t| (&t.0[..], ranked(t.1))).collect();
    let _ = trueskill_multi_team(&refs, &near_config(), None);
    let plain: Vec<&[TrueSkillRating]> = teams.iter().map(|t| &t.0[..]).collect();
    let _ = match_quality_multi_team(&plain, &near_config(), None);
}
pub fn h_c15_trueskill() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let (x, y) = trueskill(&a, &b, &any_outcome("o"), &c);
    check_finite("first rating", x.rating);
    check_finite("second rating", y.rating);
    check_finite("first uncertainty", x.uncertainty);
    check_finite("second uncertainty", y.uncertainty);
}
pub fn h_c15_trueskill_expect() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let (p, q) = expected_score(&a, &b, &c);
    check_finite("first expectation", p);
    check_finite("second expectation", q);
    check_finite("quality", match_quality(&a, &b, &c));
    check_finite("rank", get_rank(&a));
    let (a, b) = (team_a(), team_b());
    let (p, q) = expected_score_two_teams(&a, &b, &c);
    check_finite("first team's expectation", p);
    check_finite("second team's expectation", q);
    check_finite("teams' quality", match_quality_two_teams(&a, &b, &c));
    let e = expected_score_multi_team(&[&a, &b], &c);
    check_finite("many teams' expectation", e[0]);
}
pub fn h_c15_trueskill_teams() {
    let (a, b, c) = (team_a(), team_b(), config());
    let (x, y) = trueskill_two_teams(&a, &b, &any_outcome("o"), &c);
    for_each_index(a.len(), |i| {
        check_finite("first team, rating", x[i].rating);
        check_finite("first team, uncertainty", x[i].uncertainty);
    });
    for_each_index(b.len(), |i| {
        check_finite("second team, rating", y[i].rating);
        check_finite("second team, uncertainty", y[i].uncertainty);
    });
}
pub fn h_c15_trueskill_far() {
    let one = |n: &str, d: &str| TrueSkillRating { rating: any_f64(n, -500.0, 1000.0), uncertainty: any_f64(d, 0.5, 10.0) };
    let teams = any_vec("teams", 1, 5, |_| (any_vec("t", 1, 3, |_| one("a", "ad")), any_usize("r", 0, 4)));
    let refs: Vec<(&[TrueSkillRating], MultiTeamOutcome)> = teams.iter().map(|t| (&t.0[..], ranked(t.1))).collect();
    let k = config();
    let x = trueskill_multi_team(&refs, &k, None).unwrap();
    for t in &x {
        for p in t {
            check_finite("rating", p.rating);
            check_finite("uncertainty", p.uncertainty);
        }
    }
}
pub fn h_c15_trueskill_multi() {
    let teams = any_vec("teams", 1, 5, |_| (any_vec("t", 1, 4, |_| near("a", "ad")), any_usize("r", 0, 4)));
    let refs: Vec<(&[TrueSkillRating], MultiTeamOutcome)> = teams.iter().map(|t| (&t.0[..], ranked(t.1))).collect();
    let k = near_config();
    let x = trueskill_multi_team(&refs, &k, None).unwrap();
    for t in &x {
        for p in t {
            check_finite("rating", p.rating);
            check_finite("uncertainty", p.uncertainty);
        }
    }
    let plain: Vec<&[TrueSkillRating]> = teams.iter().map(|t| &t.0[..]).collect();
    check_finite("quality", match_quality_multi_team(&plain, &k, None).unwrap());
}
pub fn h_c16_trueskill() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let s: TrueSkill = RatingSystem::new(c);
    let (x, y) = RatingSystem::rate(&s, &a, &b, &o);
    let (x2, y2) = trueskill(&a, &b, &o, &c);
    check_eq("rate, first", x.rating, x2.rating);
    check_eq("rate, second", y.rating, y2.rating);
    check_eq("rate, first uncertainty", x.uncertainty, x2.uncertainty);
    check_eq("rate, second uncertainty", y.uncertainty, y2.uncertainty);
    let (p, q) = RatingSystem::expected_score(&s, &a, &b);
    let (p2, q2) = expected_score(&a, &b, &c);
    check_eq("expectation, first", p, p2);
    check_eq("expectation, second", q, q2);
}
pub fn h_c16_trueskill_period() {
    let (a, c) = (player("a", "ad"), config());
    let s: TrueSkill = RatingPeriodSystem::new(c);
    let res = results();
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &res), trueskill_rating_period(&a, &res, &c));
    check_eq("rate", x.rating, y.rating);
    check_eq("rate, uncertainty", x.uncertainty, y.uncertainty);
    let opp = any_vec("opp", 0, MANY, |_| player("p", "pd"));
    let p = RatingPeriodSystem::expected_score(&s, &a, &opp);
    check_int_eq("one expectation per opponent", p.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("expectation", p[i], expected_score(&a, &opp[i], &c).0));
}
pub fn h_c16_trueskill_teams() {
    let (a, b, c) = (team_a(), team_b(), config());
    let o = any_outcome("o");
    let s: TrueSkill = TeamRatingSystem::new(c);
    let (x, y) = TeamRatingSystem::rate(&s, &a, &b, &o);
    let (x2, y2) = trueskill_two_teams(&a, &b, &o, &c);
    check_int_eq("players", x.len(), a.len());
    check_int_eq("players", y.len(), b.len());
    for_each_index(a.len(), |i| {
        check_eq("rate, first", x[i].rating, x2[i].rating);
        check_eq("rate, first uncertainty", x[i].uncertainty, x2[i].uncertainty);
    });
    for_each_index(b.len(), |i| {
        check_eq("rate, second", y[i].rating, y2[i].rating);
        check_eq("rate, second uncertainty", y[i].uncertainty, y2[i].uncertainty);
    });
    let (p, q) = TeamRatingSystem::expected_score(&s, &a, &b);
    let (p2, q2) = expected_score_two_teams(&a, &b, &c);
    check_eq("expectation, first", p, p2);
    check_eq("expectation, second", q, q2);
}
pub fn h_c16_trueskill_multi() {
    let (a, b) = (duo("a", "ad"), duo("b", "bd"));
    let k = near_config();
    let s: TrueSkill = MultiTeamRatingSystem::new(k);
    let t: Vec<(&[TrueSkillRating], MultiTeamOutcome)> = vec![(&a, ranked(any_usize("ra", 0, 2))), (&b, ranked(any_usize("rb", 0, 2)))];
    let (x, y) = (MultiTeamRatingSystem::rate(&s, &t), trueskill_multi_team(&t, &k, None).unwrap());
    check_int_eq("teams", x.len(), 2);
    for i in 0..a.len() {
        check_eq("rate", x[0][i].rating, y[0][i].rating);
        check_eq("rate, uncertainty", x[0][i].uncertainty, y[0][i].uncertainty);
    }
    for i in 0..b.len() {
        check_eq("rate", x[1][i].rating, y[1][i].rating);
        check_eq("rate, uncertainty", x[1][i].uncertainty, y[1][i].uncertainty);
    }
    let p = MultiTeamRatingSystem::expected_score(&s, &[&a, &b]);
    let q = expected_score_multi_team(&[&a, &b], &k);
    check_int_eq("one expectation per team", p.len(), 2);
    for i in 0..2 {
        check_eq("expectation", p[i], q[i]);
    }
}
pub fn h_c17_trueskill() {
    let (r, d) = (any_f64("r", -10000.0, 10000.0), any_f64("d", 0.0, 1000.0));
    check_eq("new", TrueSkillRating::new().rating, 25.0);
    check_eq("new, uncertainty", TrueSkillRating::new().uncertainty, 25.0 / 3.0);
    check_eq("default", TrueSkillRating::default().rating, 25.0);
    check_eq("default, uncertainty", TrueSkillRating::default().uncertainty, 25.0 / 3.0);
    for k in [TrueSkillConfig::new(), TrueSkillConfig::default()] {
        check_eq("default draw probability", k.draw_probability, 0.1);
        check_eq("default beta", k.beta, 25.0 / 6.0);
        check_eq("default dynamics factor", k.dynamics_factor, 25.0 / 300.0);
    }
    let x = TrueSkillRating::from((r, d));
    check_eq("from pair", x.rating, r);
    check_eq("from pair, uncertainty", x.uncertainty, d);
    let x: TrueSkillRating = Rating::new(Some(r), Some(d));
    check_eq("trait new", x.rating, r);
    check_eq("trait new, uncertainty", x.uncertainty, d);
    check_eq("trait getter", Rating::rating(&x), r);
    check("trait uncertainty", Rating::uncertainty(&x) == Some(d));
    let x: TrueSkillRating = Rating::new(None, None);
    check_eq("trait new without a rating", x.rating, 25.0);
    check_eq("trait new without an uncertainty", x.uncertainty, 25.0 / 3.0);
    let x = TrueSkillRating::from(WengLinRating { rating: r, uncertainty: d });
    check_eq("from Weng-Lin", x.rating, r);
    check_eq("from Weng-Lin, uncertainty", x.uncertainty, d);
}
fn quality(d: f64, v: f64, b: f64) -> f64 {
    (b / (b + v)).sqrt() * (-(d * d) / (2.0 * (b + v))).exp()
}
pub fn h_c20_trueskill_rank() {
    let a = player("a", "ad");
    check_eq("rank", get_rank(&a), a.rating - 3.0 * a.uncertainty);
}
pub fn h_c20_trueskill_quality() {
    let (a, b, k) = (player("a", "ad"), player("b", "bd"), config());
    let q = match_quality(&a, &b, &k);
    let v = a.uncertainty * a.uncertainty + b.uncertainty * b.uncertainty;
    check_eq("published formula", q, quality(a.rating - b.rating, v, 2.0 * k.beta * k.beta));
    check_le("at least 0", 0.0, q);
    check_le("at most 1", q, 1.0);
    check_eq("symmetric", q, match_quality(&b, &a, &k));
}
pub fn h_c20_trueskill_monotone() {
    let (a, b, k) = (player("a", "ad"), player("b", "bd"), config());
    let further = any_f64("further", 0.0, 50.0);
    assume(a.rating <= b.rating);
    let c = TrueSkillRating { rating: b.rating + further, uncertainty: b.uncertainty };
    check_le("a larger difference is no better match", match_quality(&a, &c, &k), match_quality(&a, &b, &k));
}
pub fn h_c20_trueskill_period() {
    let (a, k) = (player("a", "ad"), config());
    let opp = any_vec("opp", 0, MANY, |_| player("o", "od"));
    let q = match_quality_rating_period(&a, &opp, &k);
    check_int_eq("one quality per opponent", q.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("same as head to head", q[i], match_quality(&a, &opp[i], &k)));
}
pub fn h_c20_trueskill_teams() {
    let (a, b, k) = (team_a(), team_b(), config());
    let q = match_quality_two_teams(&a, &b, &k);
    let n = (a.len() + b.len()) as f64;
    check_eq("published formula", q, quality(ratings(&a) - ratings(&b), variance(&a) + variance(&b), n * k.beta * k.beta));
    check_le("at least 0", 0.0, q);
    check_le("at most 1", q, 1.0);
    check_eq("symmetric", q, match_quality_two_teams(&b, &a, &k));
}
pub fn h_c20_trueskill_multi() {
    let (a, b) = (duo("a", "ad"), duo("b", "bd"));
    let k = near_config();
    let q = match_quality_multi_team(&[&a, &b], &k, None).unwrap();
    check_eq("two teams", q, match_quality_two_teams(&a, &b, &k));
}
pub fn h_c20_trueskill_three() {
    let (a, b, c) = (duo("a", "ad"), duo("b", "bd"), duo("c", "cd"));
    let k = near_config();
    let q = match_quality_multi_team(&[&a, &b, &c], &k, None).unwrap();
    check_le("at least 0", 0.0, q);
    check_le("at most 1", q, 1.0);
    check_eq("order of teams", q, match_quality_multi_team(&[&c, &a, &b], &k, None).unwrap());
    check_eq("order of teams", q, match_quality_multi_team(&[&b, &a, &c], &k, None).unwrap());
    // quality of three teams: the differences of neighbours with covariance matrices B and B + S
    let (da, db) = (ratings(&a) - ratings(&b), ratings(&b) - ratings(&c));
    let bb = k.beta * k.beta;
    let (na, nb, nc) = (a.len() as f64 * bb, b.len() as f64 * bb, c.len() as f64 * bb);
    let (ta, tb, tc) = (na + variance(&a), nb + variance(&b), nc + variance(&c));
    let det0 = (na + nb) * (nb + nc) - nb * nb;
    let det1 = (ta + tb) * (tb + tc) - tb * tb;
    let form = (da * da * (tb + tc) + 2.0 * da * db * tb + db * db * (ta + tb)) / det1;
    check_eq("published formula for three teams", q, (-0.5 * form).exp() * (det0 / det1).sqrt());
}
pub fn h_c20_trueskill_none() {
    let a = team_a();
    let k = config();
    check_eq("no teams", match_quality_multi_team(&[], &k, None).unwrap(), 0.0);
    check_eq("one team", match_quality_multi_team(&[&a], &k, None).unwrap(), 0.0);
    check_eq("a team without players", match_quality_multi_team(&[&a, &[]], &k, None).unwrap(), 0.0);
}
fn close_to(a: &TrueSkillRating, new: &TrueSkillRating, spec: (f64, f64)) {
    check_eq_tol("published rating", new.rating, spec.0, 1e-6);
    check_eq_tol("published uncertainty", new.uncertainty * new.uncertainty, spec.1, 1e-6);
    let _ = a;
}
pub fn h_c23_trueskill_win() {
    let (a, b, k) = (player("a", "ad"), player("b", "bd"), config());
    let (x, y) = trueskill(&a, &b, &Outcomes::WIN, &k);
    close_to(&a, &x, single(&a, &b, Outcomes::WIN, &k));
    close_to(&b, &y, single(&b, &a, Outcomes::LOSS, &k));
}
pub fn h_c23_trueskill_loss() {
    let (a, b, k) = (player("a", "ad"), player("b", "bd"), config());
    let (x, y) = trueskill(&a, &b, &Outcomes::LOSS, &k);
    close_to(&a, &x, single(&a, &b, Outcomes::LOSS, &k));
    close_to(&b, &y, single(&b, &a, Outcomes::WIN, &k));
}
pub fn h_c23_trueskill_draw() {
    let (a, b, k) = (player("a", "ad"), player("b", "bd"), config());
    let (x, y) = trueskill(&a, &b, &Outcomes::DRAW, &k);
    close_to(&a, &x, single(&a, &b, Outcomes::DRAW, &k));
    close_to(&b, &y, single(&b, &a, Outcomes::DRAW, &k));
}
pub fn h_c23_trueskill_expect() {
    let (a, b, k) = (player("a", "ad"), player("b", "bd"), config());
    let c = (2.0 * k.beta * k.beta + a.uncertainty * a.uncertainty + b.uncertainty * b.uncertainty).sqrt();
    check_eq("normal distribution of the difference", expected_score(&a, &b, &k).0, phi((a.rating - b.rating) / c));
    let (a, b) = (team_a(), team_b());
    let n = (a.len() + b.len()) as f64;
    let c = (n * k.beta * k.beta + variance(&a) + variance(&b)).sqrt();
    check_eq("normal distribution of the teams' difference", expected_score_two_teams(&a, &b, &k).0, phi((ratings(&a) - ratings(&b)) / c));
}
pub fn h_c23_trueskill_teams() {
    let (a, b, k) = (team_a(), team_b(), config());
    let o = any_outcome("o");
    let (x, y) = trueskill_two_teams(&a, &b, &o, &k);
    let n = (a.len() + b.len()) as f64;
    let c = (n * k.beta * k.beta + variance(&a) + variance(&b)).sqrt();
    let e = margin(k.draw_probability, k.beta, n);
    let (v, w) = corrections(o, (ratings(&a) - ratings(&b)) / c, e / c);
    for_each_index(a.len(), |i| close_to(&a[i], &x[i], updated(&a[i], 1.0, v, w, c, k.dynamics_factor)));
    for_each_index(b.len(), |i| close_to(&b[i], &y[i], updated(&b[i], -1.0, v, w, c, k.dynamics_factor)));
}
/// two teams with weights in the factor graph
pub fn h_c23_trueskill_multi() {
    let a = any_vec("ta", 1, 3, |_| (near("a", "ad"), any_f64("aw", 0.2, 1.5)));
    let b = any_vec("tb", 1, 3, |_| (near("b", "bd"), any_f64("bw", 0.2, 1.5)));
    let k = near_config();
    let (r, s) = (any_usize("ra", 0, 2), any_usize("rb", 0, 2));
    let (pa, wa): (Vec<TrueSkillRating>, Vec<f64>) = a.iter().copied().unzip();
    let (pb, wb): (Vec<TrueSkillRating>, Vec<f64>) = b.iter().copied().unzip();
    let x = trueskill_multi_team(&[(&pa, ranked(r)), (&pb, ranked(s))], &k, Some(&[&wa, &wb])).unwrap();
    let extra = k.beta * k.beta + k.dynamics_factor * k.dynamics_factor;
    let mut d = 0.0;
    let mut t = 0.0;
    for (p, w) in &a {
        d += w * p.rating;
        t += w * w * (p.uncertainty * p.uncertainty + extra);
    }
    for (p, w) in &b {
        d -= w * p.rating;
        t += w * w * (p.uncertainty * p.uncertainty + extra);
    }
    let c = t.sqrt();
    let e = margin(k.draw_probability, k.beta, (a.len() + b.len()) as f64);
    let (v, g) = corrections(outcome(r, s), d / c, e / c);
    for i in 0..a.len() {
        let q = a[i].0.uncertainty * a[i].0.uncertainty + k.dynamics_factor * k.dynamics_factor;
        check_eq_tol("first team, rating", x[0][i].rating, a[i].0.rating + a[i].1 * q / c * v, 1e-5);
        check_eq_tol("first team, uncertainty", x[0][i].uncertainty, (q * (1.0 - a[i].1 * a[i].1 * q / t * g)).sqrt(), 1e-5);
    }
    for i in 0..b.len() {
        let q = b[i].0.uncertainty * b[i].0.uncertainty + k.dynamics_factor * k.dynamics_factor;
        check_eq_tol("second team, rating", x[1][i].rating, b[i].0.rating - b[i].1 * q / c * v, 1e-5);
        check_eq_tol("second team, uncertainty", x[1][i].uncertainty, (q * (1.0 - b[i].1 * b[i].1 * q / t * g)).sqrt(), 1e-5);
    }
}
/// a Gaussian message: precision and precision times mean
#[derive(Clone, Copy)]
struct Msg {
    pi: f64,
    tau: f64,
}
fn with(a: Msg, b: Msg) -> Msg {
    Msg { pi: a.pi + b.pi, tau: a.tau + b.tau }
}
fn without(a: Msg, b: Msg) -> Msg {
    Msg { pi: a.pi - b.pi, tau: a.tau - b.tau }
}
/// message about one team of a pair, from the difference `d` and the other team: other + sign * d
fn beyond(d: Msg, other: Msg, sign: f64) -> Msg {
    let p = d.pi + other.pi;
    Msg { pi: d.pi * other.pi / p, tau: (sign * d.tau * other.pi + other.tau * d.pi) / p }
}
/// the published message passing along the chain of teams in order of their ranks: what the
/// neighbours tell every team about its performance; at most ten rounds, until nothing changes
/// by more than 1e-4.  `prior`: performance of the team; `e`: draw margin and draw flag per pair of neighbours
fn chain(prior: &[Msg], e: &[(f64, bool)]) -> Vec<Msg> {
    let n = e.len();
    let zero = Msg { pi: 0.0, tau: 0.0 };
    let mut up = vec![zero; n]; // from the pair to its better team
    let mut down = vec![zero; n]; // from the pair to its worse team
    let mut cut = vec![zero; n]; // from the result to the difference of the pair
    for _ in 0..10 {
        let mut order: Vec<(usize, bool)> = Vec::new();
        if n == 1 {
            order.push((0, true));
        } else {
            for x in 0..n - 1 {
                order.push((x, true));
            }
            for x in (1..n).rev() {
                order.push((x, false));
            }
        }
        let mut change = 0.0f64;
        for (x, forward) in order {
            // what the rest of the chain says about both teams
            let better = if x > 0 { with(prior[x], down[x - 1]) } else { prior[x] };
            let worse = if x + 1 < n { with(prior[x + 1], up[x + 1]) } else { prior[x + 1] };
            let var = 1.0 / better.pi + 1.0 / worse.pi;
            let diff = Msg { pi: 1.0 / var, tau: (better.tau / better.pi - worse.tau / worse.pi) / var };
            let s = diff.pi.sqrt();
            let (v, w) = if e[x].1 { drawn(diff.tau / s, e[x].0 * s) } else { decided(diff.tau / s, e[x].0 * s) };
            let value = Msg { pi: diff.pi / (1.0 - w), tau: (diff.tau + s * v) / (1.0 - w) };
            let old = with(diff, cut[x]);
            change = change.max((old.tau - value.tau).abs()).max((old.pi - value.pi).abs().sqrt());
            cut[x] = without(value, diff);
            if n > 1 {
                if forward {
                    down[x] = beyond(cut[x], better, -1.0);
                } else {
                    up[x] = beyond(cut[x], worse, 1.0);
                }
            }
        }
        // rounding must not decide whether there is another round
        assume((change - 1e-4).abs() > 1e-8);
        if change <= 1e-4 {
            break;
        }
    }
    let worse = if n > 1 { with(prior[1], up[1]) } else { prior[1] };
    up[0] = beyond(cut[0], worse, 1.0);
    let better = if n > 1 { with(prior[n - 1], down[n - 2]) } else { prior[0] };
    down[n - 1] = beyond(cut[n - 1], better, -1.0);
    let mut out = Vec::new();
    for t in 0..=n {
        let a = if t > 0 { down[t - 1] } else { zero };
        let b = if t < n { up[t] } else { zero };
        out.push(with(a, b));
    }
    out
}
/// any number of weighted teams against the message passing
pub fn h_c23_trueskill_chain() {
    let teams = any_vec("teams", 2, 5, |_| (any_vec("t", 1, 3, |_| (near("a", "ad"), any_f64("w", 0.2, 1.5))), any_usize("r", 0, 4)));
    let k = near_config();
    let weighted = any_bool("weighted");
    let players: Vec<Team> = teams.iter().map(|t| t.0.iter().map(|p| p.0).collect()).collect();
    let weights: Vec<Vec<f64>> = teams.iter().map(|t| t.0.iter().map(|p| if weighted { p.1 } else { 1.0 }).collect()).collect();
    let refs: Vec<(&[TrueSkillRating], MultiTeamOutcome)> = players.iter().zip(&teams).map(|(p, t)| (&p[..], ranked(t.1))).collect();
    let ws: Vec<&[f64]> = weights.iter().map(|w| &w[..]).collect();
    let x = trueskill_multi_team(&refs, &k, if weighted { Some(&ws[..]) } else { None }).unwrap();
    // teams by rank, equal ranks in the order given
    let mut order: Vec<usize> = (0..teams.len()).collect();
    for i in 0..order.len() {
        for j in (0..i).rev() {
            if teams[order[j]].1 > teams[order[j + 1]].1 {
                order.swap(j, j + 1);
            }
        }
    }
    let (tau2, beta2) = (k.dynamics_factor * k.dynamics_factor, k.beta * k.beta);
    let mut prior = Vec::new();
    for &t in &order {
        let (mut m, mut s) = (0.0, 0.0);
        for i in 0..players[t].len() {
            let (p, w) = (players[t][i], weights[t][i]);
            m += w * p.rating;
            s += w * w * (p.uncertainty * p.uncertainty + tau2 + beta2);
        }
        prior.push(Msg { pi: 1.0 / s, tau: m / s });
    }
    let mut e = Vec::new();
    for i in 0..order.len() - 1 {
        let (t, u) = (order[i], order[i + 1]);
        e.push((margin(k.draw_probability, k.beta, (players[t].len() + players[u].len()) as f64), teams[t].1 == teams[u].1));
    }
    let msg = chain(&prior, &e);
    for i in 0..order.len() {
        let t = order[i];
        // the message about the team, passed on to its players
        let s = 1.0 / prior[i].pi;
        let share = msg[i].pi / (1.0 + s * msg[i].pi);
        let shift = (msg[i].tau - msg[i].pi * prior[i].tau * s) / (1.0 + s * msg[i].pi);
        for j in 0..players[t].len() {
            let (p, w) = (players[t][j], weights[t][j]);
            let q = p.uncertainty * p.uncertainty + tau2;
            check_eq_tol("rating by message passing", x[t][j].rating, p.rating + w * q * shift, 1e-5);
            check_eq_tol("uncertainty by message passing", x[t][j].uncertainty, (q * (1.0 - w * w * q * share)).sqrt(), 1e-5);
        }
    }
}
/// quality of any number of weighted teams: the differences of neighbours, eliminated one after the other
pub fn h_c20_trueskill_chain() {
    let teams = any_vec("teams", 2, 5, |_| any_vec("t", 1, 3, |_| (near("a", "ad"), any_f64("w", 0.2, 1.5))));
    let k = near_config();
    let weighted = any_bool("weighted");
    let players: Vec<Team> = teams.iter().map(|t| t.iter().map(|p| p.0).collect()).collect();
    let weights: Vec<Vec<f64>> = teams.iter().map(|t| t.iter().map(|p| if weighted { p.1 } else { 1.0 }).collect()).collect();
    let refs: Vec<&[TrueSkillRating]> = players.iter().map(|p| &p[..]).collect();
    let ws: Vec<&[f64]> = weights.iter().map(|w| &w[..]).collect();
    let q = match_quality_multi_team(&refs, &k, if weighted { Some(&ws[..]) } else { None }).unwrap();
    let (mut m, mut s, mut b) = (Vec::new(), Vec::new(), Vec::new());
    for t in 0..players.len() {
        let (mut x, mut y, mut z) = (0.0, 0.0, 0.0);
        for i in 0..players[t].len() {
            let (p, w) = (players[t][i], weights[t][i]);
            x += w * p.rating;
            z += w * w * k.beta * k.beta;
            y += w * w * (k.beta * k.beta + p.uncertainty * p.uncertainty);
        }
        m.push(x);
        s.push(y);
        b.push(z);
    }
    let n = m.len() - 1;
    // tridiagonal elimination: pivots are the ratios of leading determinants
    let (mut form, mut ratio) = (0.0, 1.0);
    let (mut ps, mut pb, mut y) = (0.0, 0.0, 0.0);
    for i in 0..n {
        let d = m[i] - m[i + 1];
        if i == 0 {
            ps = s[0] + s[1];
            pb = b[0] + b[1];
            y = d;
        } else {
            let l = -s[i] / ps;
            y = d - l * y;
            ps = s[i] + s[i + 1] - s[i] * s[i] / ps;
            pb = b[i] + b[i + 1] - b[i] * b[i] / pb;
        }
        form += y * y / ps;
        ratio *= pb / ps;
    }
    check_eq_tol("published formula for many teams", q, (-0.5 * form).exp() * ratio.sqrt(), 1e-6);
    check_le("at least 0", 0.0, q);
    check_le("at most 1", q, 1.0);
    let rev: Vec<&[TrueSkillRating]> = players.iter().rev().map(|p| &p[..]).collect();
    let wrev: Vec<&[f64]> = weights.iter().rev().map(|w| &w[..]).collect();
    check_eq_tol("order of teams", q, match_quality_multi_team(&rev, &k, if weighted { Some(&wrev[..]) } else { None }).unwrap(), 1e-6);
}
