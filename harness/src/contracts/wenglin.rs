use super::common::*;
use crate::rt::*;
use skillratings::trueskill::TrueSkillRating;
use skillratings::weng_lin::*;
use skillratings::{MultiTeamOutcome, MultiTeamRatingSystem, Outcomes, Rating, RatingPeriodSystem, RatingSystem, TeamRatingSystem};

type Team = Vec<WengLinRating>;

fn player(name: &str, dev: &str) -> WengLinRating {
    WengLinRating { rating: any_f64(name, -200.0, 200.0), uncertainty: any_f64(dev, 0.1, 50.0) }
}
fn config() -> WengLinConfig {
    WengLinConfig { beta: any_f64("beta", 0.1, 50.0), uncertainty_tolerance: any_f64("tolerance", 1e-9, 0.5) }
}
fn results() -> Vec<(WengLinRating, Outcomes)> {
    any_vec("res", 0, MANY, |_| (player("o", "od"), any_outcome("s")))
}
fn team_a() -> Team {
    any_vec("ta", 1, MANY, |_| player("a", "ad"))
}
fn team_b() -> Team {
    any_vec("tb", 1, MANY, |_| player("b", "bd"))
}
fn team_c() -> Team {
    any_vec("tc", 1, MANY, |_| player("c", "cd"))
}
fn rank(name: &str) -> usize {
    any_usize(name, 0, 1 << 20)
}
fn ranked(r: usize) -> MultiTeamOutcome {
    MultiTeamOutcome::new(r)
}
/// score of the team ranked r against the team ranked s
fn placed(r: usize, s: usize) -> f64 {
    if r < s {
        1.0
    } else if r > s {
        0.0
    } else {
        0.5
    }
}
fn ratings(t: &[WengLinRating]) -> f64 {
    let mut r = 0.0;
    for p in t {
        r += p.rating;
    }
    r
}
fn variance(t: &[WengLinRating]) -> f64 {
    let mut r = 0.0;
    for p in t {
        r += p.uncertainty * p.uncertainty;
    }
    r
}
/// scale of a comparison
fn scale(v1: f64, v2: f64, beta: f64) -> f64 {
    (v1 + v2 + 2.0 * beta * beta).sqrt()
}
fn win(r1: f64, r2: f64, c: f64) -> f64 {
    1.0 / (1.0 + ((r2 - r1) / c).exp())
}
/// (omega, delta) of a team with mean r1 and variance v1 against another one
fn versus(r1: f64, v1: f64, r2: f64, v2: f64, s: f64, beta: f64) -> (f64, f64) {
    let c = scale(v1, v2, beta);
    let p = win(r1, r2, c);
    (v1 / c * (s - p), v1.sqrt() / c * v1 / (c * c) * p * (1.0 - p))
}
fn updated(p: &WengLinRating, v: f64, omega: f64, delta: f64, tolerance: f64) -> (f64, f64) {
    let u = p.uncertainty * p.uncertainty;
    (p.rating + u / v * omega, (u * (1.0 - u / v * delta).max(tolerance)).sqrt())
}
fn one(a: &WengLinRating, b: &WengLinRating, s: f64, c: &WengLinConfig) -> (f64, f64) {
    let (v1, v2) = (a.uncertainty * a.uncertainty, b.uncertainty * b.uncertainty);
    let (omega, delta) = versus(a.rating, v1, b.rating, v2, s, c.beta);
    updated(a, v1, omega, delta, c.uncertainty_tolerance)
}

pub fn h_c01_wenglin() {
    let (x, y) = expected_score(&player("a", "ad"), &player("b", "bd"), &config());
    probabilities(x, y);
}
pub fn h_c01_wenglin_teams() {
    let (a, b) = (team_a(), team_b());
    let (x, y) = expected_score_two_teams(&a, &b, &config());
    probabilities(x, y);
}
pub fn h_c01_wenglin_multi() {
    let (a, b, c) = (team_a(), team_b(), team_c());
    let x = expected_score_multi_team(&[&a, &b, &c], &config());
    check_int_eq("one expectation per team", x.len(), 3);
    for i in 0..3 {
        check_le("expectation is at least 0", 0.0, x[i]);
        check_le("expectation is at most 1", x[i], 1.0);
    }
    check_eq("expectations sum to 1", x[0] + x[1] + x[2], 1.0);
    let x = expected_score_multi_team(&[&a, &b], &config());
    check_int_eq("one expectation per team", x.len(), 2);
    check_eq("expectations sum to 1", x[0] + x[1], 1.0);
    let x = expected_score_multi_team(&[&a], &config());
    check_int_eq("one expectation per team", x.len(), 1);
    check_eq("the only team wins", x[0], 1.0);
}
pub fn h_c01_wenglin_many() {
    let teams = any_vec("teams", 1, MANY, |_| any_vec("t", 1, MANY, |_| player("a", "ad")));
    let refs: Vec<&[WengLinRating]> = teams.iter().map(|t| &t[..]).collect();
    let x = expected_score_multi_team(&refs, &config());
    check_int_eq("one expectation per team", x.len(), teams.len());
    for_each_index(teams.len(), |i| {
        check_le("expectation is at least 0", 0.0, x[i]);
        check_le("expectation is at most 1", x[i], 1.0);
    });
    let mut sum = 0.0;
    for e in &x {
        sum += e;
    }
    check_eq("expectations sum to 1", sum, 1.0);
}
pub fn h_c02_wenglin() {
    let (a, c) = (player("a", "ad"), config());
    let opp = any_vec("opp", 0, MANY, |_| player("o", "od"));
    let r = expected_score_rating_period(&a, &opp, &c);
    check_int_eq("one expectation per opponent", r.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("same as head to head", r[i], expected_score(&a, &opp[i], &c).0));
}
pub fn h_c03_wenglin() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let w = weng_lin(&a, &b, &Outcomes::WIN, &c);
    let d = weng_lin(&a, &b, &Outcomes::DRAW, &c);
    let l = weng_lin(&a, &b, &Outcomes::LOSS, &c);
    ordered(w.0.rating, d.0.rating, l.0.rating);
    ordered(l.1.rating, d.1.rating, w.1.rating);
    check_le("winning does not cost rating", a.rating, w.0.rating);
    check_le("losing does not gain rating", l.0.rating, a.rating);
    check_le("winning does not cost rating", b.rating, l.1.rating);
    check_le("losing does not gain rating", w.1.rating, b.rating);
}
pub fn h_c03_wenglin_teams() {
    let (a, b, c) = (team_a(), team_b(), config());
    let w = weng_lin_two_teams(&a, &b, &Outcomes::WIN, &c);
    let d = weng_lin_two_teams(&a, &b, &Outcomes::DRAW, &c);
    let l = weng_lin_two_teams(&a, &b, &Outcomes::LOSS, &c);
    for_each_index(a.len(), |i| {
        ordered(w.0[i].rating, d.0[i].rating, l.0[i].rating);
        check_le("winning does not cost rating", a[i].rating, w.0[i].rating);
        check_le("losing does not gain rating", l.0[i].rating, a[i].rating);
    });
    for_each_index(b.len(), |i| {
        ordered(l.1[i].rating, d.1[i].rating, w.1[i].rating);
        check_le("winning does not cost rating", b[i].rating, l.1[i].rating);
        check_le("losing does not gain rating", w.1[i].rating, b[i].rating);
    });
}
pub fn h_c03_wenglin_multi() {
    let (a, b, c) = (team_a(), team_b(), team_c());
    let k = config();
    let (r, s, t) = (rank("ra"), rank("rb"), rank("rc"));
    let better = rank("better");
    assume(better <= r);
    let x = weng_lin_multi_team(&[(&a, ranked(r)), (&b, ranked(s)), (&c, ranked(t))], &k);
    let y = weng_lin_multi_team(&[(&a, ranked(better)), (&b, ranked(s)), (&c, ranked(t))], &k);
    for_each_index(a.len(), |i| check_le("a better rank gives no lower rating", x[0][i].rating, y[0][i].rating));
    for_each_index(b.len(), |i| check_le("an opponent's better rank gives no higher rating", y[1][i].rating, x[1][i].rating));
}
pub fn h_c05_wenglin() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let (x, y) = weng_lin(&a, &b, &o, &c);
    let (y2, x2) = weng_lin(&b, &a, &flip(o), &c);
    check_eq("first player", x.rating, x2.rating);
    check_eq("second player", y.rating, y2.rating);
    check_eq("first uncertainty", x.uncertainty, x2.uncertainty);
    check_eq("second uncertainty", y.uncertainty, y2.uncertainty);
    let (p, q) = expected_score(&a, &b, &c);
    let (q2, p2) = expected_score(&b, &a, &c);
    check_eq("first expectation", p, p2);
    check_eq("second expectation", q, q2);
}
pub fn h_c05_wenglin_teams() {
    let (a, b, c) = (team_a(), team_b(), config());
    let o = any_outcome("o");
    let (x, y) = weng_lin_two_teams(&a, &b, &o, &c);
    let (y2, x2) = weng_lin_two_teams(&b, &a, &flip(o), &c);
    for_each_index(a.len(), |i| {
        check_eq("first team", x[i].rating, x2[i].rating);
        check_eq("first team, uncertainty", x[i].uncertainty, x2[i].uncertainty);
    });
    for_each_index(b.len(), |i| {
        check_eq("second team", y[i].rating, y2[i].rating);
        check_eq("second team, uncertainty", y[i].uncertainty, y2[i].uncertainty);
    });
    let (p, q) = expected_score_two_teams(&a, &b, &c);
    let (q2, p2) = expected_score_two_teams(&b, &a, &c);
    check_eq("first expectation", p, p2);
    check_eq("second expectation", q, q2);
}
pub fn h_c07_wenglin() {
    let (a, c) = (player("a", "ad"), config());
    let res = results();
    let n = weng_lin_rating_period(&a, &res, &c);
    let mut x = a;
    for (o, s) in &res {
        let (r, u) = one(&x, o, score(*s), &c);
        x = WengLinRating { rating: r, uncertainty: u };
    }
    check_eq("rating after all results", n.rating, x.rating);
    check_eq("uncertainty after all results", n.uncertainty, x.uncertainty);
}
pub fn h_c08_wenglin_empty() {
    let (a, c) = (player("a", "ad"), config());
    let n = weng_lin_rating_period(&a, &[], &c);
    check_eq("nothing played, nothing changed", n.rating, a.rating);
    check_eq("nothing played, uncertainty unchanged", n.uncertainty, a.uncertainty);
}
pub fn h_c08_wenglin_one() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let (x, y) = (weng_lin_rating_period(&a, &[(b, o)], &c), weng_lin(&a, &b, &o, &c).0);
    check_eq("one result is one match", x.rating, y.rating);
    check_eq("one result is one match, uncertainty", x.uncertainty, y.uncertainty);
}
pub fn h_c08_wenglin_fold() {
    let (a, c) = (player("a", "ad"), config());
    let res = results();
    let n = weng_lin_rating_period(&a, &res, &c);
    let mut x = a;
    for (o, s) in &res {
        x = weng_lin(&x, o, s, &c).0;
    }
    check_eq("a period is its matches one after the other", n.rating, x.rating);
    check_eq("a period is its matches one after the other, uncertainty", n.uncertainty, x.uncertainty);
}
pub fn h_c09_wenglin() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let (x, y) = weng_lin(&a, &b, &any_outcome("o"), &c);
    check_lt("first uncertainty is positive", 0.0, x.uncertainty);
    check_lt("second uncertainty is positive", 0.0, y.uncertainty);
    check_le("playing does not add uncertainty", x.uncertainty, a.uncertainty);
    check_le("playing does not add uncertainty", y.uncertainty, b.uncertainty);
    check_le("no lower than the tolerated share", c.uncertainty_tolerance * a.uncertainty * a.uncertainty, x.uncertainty * x.uncertainty);
    check_le("no lower than the tolerated share", c.uncertainty_tolerance * b.uncertainty * b.uncertainty, y.uncertainty * y.uncertainty);
}
pub fn h_c09_wenglin_period() {
    let (a, c) = (player("a", "ad"), config());
    let res = results();
    let x = weng_lin_rating_period(&a, &res, &c);
    check_lt("uncertainty is positive", 0.0, x.uncertainty);
    check_le("playing does not add uncertainty", x.uncertainty, a.uncertainty);
}
pub fn h_c09_wenglin_teams() {
    let (a, b, c) = (team_a(), team_b(), config());
    let o = any_outcome("o");
    let (x, y) = weng_lin_two_teams(&a, &b, &o, &c);
    for_each_index(a.len(), |i| {
        check_lt("uncertainty is positive", 0.0, x[i].uncertainty);
        check_le("playing does not add uncertainty", x[i].uncertainty, a[i].uncertainty);
    });
    for_each_index(b.len(), |i| {
        check_lt("uncertainty is positive", 0.0, y[i].uncertainty);
        check_le("playing does not add uncertainty", y[i].uncertainty, b[i].uncertainty);
    });
}
pub fn h_c09_wenglin_multi() {
    let (a, b, c) = (team_a(), team_b(), team_c());
    let x = weng_lin_multi_team(&[(&a, ranked(rank("ra"))), (&b, ranked(rank("rb"))), (&c, ranked(rank("rc")))], &config());
    for_each_index(a.len(), |i| {
        check_lt("uncertainty is positive", 0.0, x[0][i].uncertainty);
        check_le("playing does not add uncertainty", x[0][i].uncertainty, a[i].uncertainty);
    });
    for_each_index(c.len(), |i| {
        check_lt("uncertainty is positive", 0.0, x[2][i].uncertainty);
        check_le("playing does not add uncertainty", x[2][i].uncertainty, c[i].uncertainty);
    });
}
pub fn h_c11_wenglin_teams() {
    let a = any_vec("ta", 0, MANY, |_| player("a", "ad"));
    let b = any_vec("tb", 0, MANY, |_| player("b", "bd"));
    let (x, y) = weng_lin_two_teams(&a, &b, &any_outcome("o"), &config());
    check_int_eq("players of the first team", x.len(), a.len());
    check_int_eq("players of the second team", y.len(), b.len());
    if a.is_empty() || b.is_empty() {
        for_each_index(a.len(), |i| {
            check_eq("unchanged without opponents", x[i].rating, a[i].rating);
            check_eq("unchanged without opponents", x[i].uncertainty, a[i].uncertainty);
        });
        for_each_index(b.len(), |i| {
            check_eq("unchanged without opponents", y[i].rating, b[i].rating);
            check_eq("unchanged without opponents", y[i].uncertainty, b[i].uncertainty);
        });
    }
}
pub fn h_c11_wenglin_multi() {
    let a = any_vec("ta", 0, MANY, |_| player("a", "ad"));
    let b = any_vec("tb", 0, MANY, |_| player("b", "bd"));
    let c = any_vec("tc", 0, MANY, |_| player("c", "cd"));
    let x = weng_lin_multi_team(&[(&a, ranked(rank("ra"))), (&b, ranked(rank("rb"))), (&c, ranked(rank("rc")))], &config());
    check_int_eq("as many teams", x.len(), 3);
    check_int_eq("players of the first team", x[0].len(), a.len());
    check_int_eq("players of the second team", x[1].len(), b.len());
    check_int_eq("players of the third team", x[2].len(), c.len());
    if a.is_empty() || b.is_empty() || c.is_empty() {
        for_each_index(a.len(), |i| {
            check_eq("unchanged with an empty team", x[0][i].rating, a[i].rating);
            check_eq("unchanged with an empty team", x[0][i].uncertainty, a[i].uncertainty);
        });
        for_each_index(b.len(), |i| {
            check_eq("unchanged with an empty team", x[1][i].rating, b[i].rating);
            check_eq("unchanged with an empty team", x[1][i].uncertainty, b[i].uncertainty);
        });
        for_each_index(c.len(), |i| {
            check_eq("unchanged with an empty team", x[2][i].rating, c[i].rating);
            check_eq("unchanged with an empty team", x[2][i].uncertainty, c[i].uncertainty);
        });
    }
    let x = weng_lin_multi_team(&[(&a, ranked(rank("ra")))], &config());
    check_int_eq("one team", x.len(), 1);
    check_int_eq("players of the only team", x[0].len(), a.len());
    for_each_index(a.len(), |i| {
        check_eq("unchanged without opponents", x[0][i].rating, a[i].rating);
        check_eq("unchanged without opponents", x[0][i].uncertainty, a[i].uncertainty);
    });
    check_int_eq("no teams", weng_lin_multi_team(&[], &config()).len(), 0);
}
pub fn h_c11_wenglin_many() {
    let teams = any_vec("teams", 0, MANY, |_| (any_vec("t", 0, MANY, |_| player("a", "ad")), rank("r")));
    let refs: Vec<(&[WengLinRating], MultiTeamOutcome)> = teams.iter().map(|t| (&t.0[..], ranked(t.1))).collect();
    let x = weng_lin_multi_team(&refs, &config());
    check_int_eq("as many teams", x.len(), teams.len());
    for_each_index(teams.len(), |i| check_int_eq("as many players", x[i].len(), teams[i].0.len()));
}
pub fn h_c12_wenglin_single() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let (x, y) = weng_lin(&a, &b, &o, &c);
    let (u, v) = weng_lin_two_teams(&[a], &[b], &o, &c);
    check_eq("teams of one, first rating", u[0].rating, x.rating);
    check_eq("teams of one, first uncertainty", u[0].uncertainty, x.uncertainty);
    check_eq("teams of one, second rating", v[0].rating, y.rating);
    check_eq("teams of one, second uncertainty", v[0].uncertainty, y.uncertainty);
    check_eq("teams of one, expectation", expected_score_two_teams(&[a], &[b], &c).0, expected_score(&a, &b, &c).0);
    check_eq("two teams, expectation", expected_score_multi_team(&[&[a], &[b]], &c)[0], expected_score(&a, &b, &c).0);
}
fn outcome(r: usize, s: usize) -> Outcomes {
    if r < s {
        Outcomes::WIN
    } else if r > s {
        Outcomes::LOSS
    } else {
        Outcomes::DRAW
    }
}
pub fn h_c12_wenglin_two() {
    let (a, b, c) = (team_a(), team_b(), config());
    let (r, s) = (rank("ra"), rank("rb"));
    let (x, y) = weng_lin_two_teams(&a, &b, &outcome(r, s), &c);
    let z = weng_lin_multi_team(&[(&a, ranked(r)), (&b, ranked(s))], &c);
    for_each_index(a.len(), |i| {
        check_eq("two teams, first rating", z[0][i].rating, x[i].rating);
        check_eq("two teams, first uncertainty", z[0][i].uncertainty, x[i].uncertainty);
    });
    for_each_index(b.len(), |i| {
        check_eq("two teams, second rating", z[1][i].rating, y[i].rating);
        check_eq("two teams, second uncertainty", z[1][i].uncertainty, y[i].uncertainty);
    });
    check_eq("two teams, expectation", expected_score_multi_team(&[&a, &b], &c)[0], expected_score_two_teams(&a, &b, &c).0);
}
pub fn h_c12_wenglin_order() {
    let (a, b, c) = (team_a(), team_b(), team_c());
    let k = config();
    let (r, s, t) = (ranked(rank("ra")), ranked(rank("rb")), ranked(rank("rc")));
    let x = weng_lin_multi_team(&[(&a, r), (&b, s), (&c, t)], &k);
    let y = weng_lin_multi_team(&[(&b, s), (&a, r), (&c, t)], &k);
    let z = weng_lin_multi_team(&[(&b, s), (&c, t), (&a, r)], &k);
    for_each_index(a.len(), |i| {
        check_eq("first two teams exchanged, rating", y[1][i].rating, x[0][i].rating);
        check_eq("first two teams exchanged, uncertainty", y[1][i].uncertainty, x[0][i].uncertainty);
        check_eq("teams rotated, rating", z[2][i].rating, x[0][i].rating);
        check_eq("teams rotated, uncertainty", z[2][i].uncertainty, x[0][i].uncertainty);
    });
    for_each_index(b.len(), |i| {
        check_eq("first two teams exchanged, rating", y[0][i].rating, x[1][i].rating);
        check_eq("teams rotated, rating", z[0][i].rating, x[1][i].rating);
    });
    for_each_index(c.len(), |i| {
        check_eq("first two teams exchanged, rating", y[2][i].rating, x[2][i].rating);
        check_eq("teams rotated, rating", z[1][i].rating, x[2][i].rating);
    });
}
pub fn h_c12_wenglin_players() {
    let (a, b, k) = (team_a(), team_b(), config());
    let p = player("p", "pd");
    let (r, s) = (ranked(rank("ra")), ranked(rank("rb")));
    let mut front = vec![p];
    front.extend(a.iter().copied());
    let mut back = a.clone();
    back.push(p);
    let x = weng_lin_multi_team(&[(&front, r), (&b, s)], &k);
    let y = weng_lin_multi_team(&[(&back, r), (&b, s)], &k);
    check_eq("player moved to the end, rating", x[0][0].rating, y[0][a.len()].rating);
    check_eq("player moved to the end, uncertainty", x[0][0].uncertainty, y[0][a.len()].uncertainty);
    for_each_index(a.len(), |i| check_eq("player moved to the end, others", x[0][i + 1].rating, y[0][i].rating));
    for_each_index(b.len(), |i| check_eq("player moved to the end, opponents", x[1][i].rating, y[1][i].rating));
    let o = any_outcome("o");
    let (x, u) = weng_lin_two_teams(&front, &b, &o, &k);
    let (y, v) = weng_lin_two_teams(&back, &b, &o, &k);
    check_eq("two teams, player moved to the end", x[0].rating, y[a.len()].rating);
    for_each_index(b.len(), |i| check_eq("two teams, player moved to the end, opponents", u[i].rating, v[i].rating));
}
pub fn h_c12_wenglin_ranks() {
    let (a, b, c) = (team_a(), team_b(), team_c());
    let k = config();
    let (r, s, t) = (rank("ra"), rank("rb"), rank("rc"));
    let x = weng_lin_multi_team(&[(&a, ranked(r)), (&b, ranked(s)), (&c, ranked(t))], &k);
    let y = weng_lin_multi_team(&[(&a, ranked(3 * r + 5)), (&b, ranked(3 * s + 5)), (&c, ranked(3 * t + 5))], &k);
    for_each_index(a.len(), |i| check_eq("only the order of ranks matters", y[0][i].rating, x[0][i].rating));
    for_each_index(b.len(), |i| check_eq("only the order of ranks matters", y[1][i].rating, x[1][i].rating));
    for_each_index(c.len(), |i| check_eq("only the order of ranks matters", y[2][i].rating, x[2][i].rating));
}
pub fn h_c14_wenglin() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let _ = weng_lin(&a, &b, &any_outcome("o"), &c);
    let _ = expected_score(&a, &b, &c);
    let res = results();
    let _ = weng_lin_rating_period(&a, &res, &c);
    let opp = any_vec("opp", 0, MANY, |_| player("p", "pd"));
    let _ = expected_score_rating_period(&a, &opp, &c);
    let _ = weng_lin_two_teams(&opp, &opp, &any_outcome("o"), &c);
    let _ = expected_score_two_teams(&opp, &opp, &c);
}
pub fn h_c14_wenglin_many() {
    let teams = any_vec("teams", 0, MANY, |_| (any_vec("t", 0, MANY, |_| player("a", "ad")), rank("r")));
    let refs: Vec<(&[WengLinRating], MultiTeamOutcome)> = teams.iter().map(|t| (&t.0[..], ranked(t.1))).collect();
    let _ = weng_lin_multi_team(&refs, &config());
    let refs: Vec<&[WengLinRating]> = teams.iter().map(|t| &t.0[..]).collect();
    let _ = expected_score_multi_team(&refs, &config());
}
pub fn h_c15_wenglin() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let (x, y) = weng_lin(&a, &b, &any_outcome("o"), &c);
    check_finite("first rating", x.rating);
    check_finite("second rating", y.rating);
    check_finite("first uncertainty", x.uncertainty);
    check_finite("second uncertainty", y.uncertainty);
    let (p, q) = expected_score(&a, &b, &c);
    check_finite("first expectation", p);
    check_finite("second expectation", q);
}
pub fn h_c15_wenglin_period() {
    let (a, c) = (player("a", "ad"), config());
    let res = results();
    let x = weng_lin_rating_period(&a, &res, &c);
    check_finite("rating", x.rating);
    check_finite("uncertainty", x.uncertainty);
}
pub fn h_c15_wenglin_teams() {
    let (a, b, c) = (team_a(), team_b(), config());
    let (x, y) = weng_lin_two_teams(&a, &b, &any_outcome("o"), &c);
    for_each_index(a.len(), |i| {
        check_finite("first team, rating", x[i].rating);
        check_finite("first team, uncertainty", x[i].uncertainty);
    });
    for_each_index(b.len(), |i| {
        check_finite("second team, rating", y[i].rating);
        check_finite("second team, uncertainty", y[i].uncertainty);
    });
    let (p, q) = expected_score_two_teams(&a, &b, &c);
    check_finite("first expectation", p);
    check_finite("second expectation", q);
}
pub fn h_c15_wenglin_multi() {
    let (a, b, c) = (team_a(), team_b(), team_c());
    let k = config();
    let x = weng_lin_multi_team(&[(&a, ranked(rank("ra"))), (&b, ranked(rank("rb"))), (&c, ranked(rank("rc")))], &k);
    for_each_index(a.len(), |i| {
        check_finite("rating", x[0][i].rating);
        check_finite("uncertainty", x[0][i].uncertainty);
    });
    for_each_index(b.len(), |i| {
        check_finite("rating", x[1][i].rating);
        check_finite("uncertainty", x[1][i].uncertainty);
    });
    let e = expected_score_multi_team(&[&a, &b, &c], &k);
    for i in 0..3 {
        check_finite("expectation", e[i]);
    }
}
pub fn h_c16_wenglin() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let s: WengLin = RatingSystem::new(c);
    let (x, y) = RatingSystem::rate(&s, &a, &b, &o);
    let (x2, y2) = weng_lin(&a, &b, &o, &c);
    check_eq("rate, first", x.rating, x2.rating);
    check_eq("rate, second", y.rating, y2.rating);
    check_eq("rate, first uncertainty", x.uncertainty, x2.uncertainty);
    check_eq("rate, second uncertainty", y.uncertainty, y2.uncertainty);
    let (p, q) = RatingSystem::expected_score(&s, &a, &b);
    let (p2, q2) = expected_score(&a, &b, &c);
    check_eq("expectation, first", p, p2);
    check_eq("expectation, second", q, q2);
}
pub fn h_c16_wenglin_period() {
    let (a, c) = (player("a", "ad"), config());
    let s: WengLin = RatingPeriodSystem::new(c);
    let res = results();
    let (x, y) = (RatingPeriodSystem::rate(&s, &a, &res), weng_lin_rating_period(&a, &res, &c));
    check_eq("rate", x.rating, y.rating);
    check_eq("rate, uncertainty", x.uncertainty, y.uncertainty);
    let opp = any_vec("opp", 0, MANY, |_| player("p", "pd"));
    let p = RatingPeriodSystem::expected_score(&s, &a, &opp);
    check_int_eq("one expectation per opponent", p.len(), opp.len());
    for_each_index(opp.len(), |i| check_eq("expectation", p[i], expected_score(&a, &opp[i], &c).0));
}
pub fn h_c16_wenglin_teams() {
    let (a, b, c) = (team_a(), team_b(), config());
    let o = any_outcome("o");
    let s: WengLin = TeamRatingSystem::new(c);
    let (x, y) = TeamRatingSystem::rate(&s, &a, &b, &o);
    let (x2, y2) = weng_lin_two_teams(&a, &b, &o, &c);
    check_int_eq("players", x.len(), a.len());
    check_int_eq("players", y.len(), b.len());
    for_each_index(a.len(), |i| {
        check_eq("rate, first", x[i].rating, x2[i].rating);
        check_eq("rate, first uncertainty", x[i].uncertainty, x2[i].uncertainty);
    });
    for_each_index(b.len(), |i| {
        check_eq("rate, second", y[i].rating, y2[i].rating);
        check_eq("rate, second uncertainty", y[i].uncertainty, y2[i].uncertainty);
    });
    let (p, q) = TeamRatingSystem::expected_score(&s, &a, &b);
    let (p2, q2) = expected_score_two_teams(&a, &b, &c);
    check_eq("expectation, first", p, p2);
    check_eq("expectation, second", q, q2);
}
pub fn h_c16_wenglin_multi() {
    let (a, b, c) = (team_a(), team_b(), team_c());
    let k = config();
    let s: WengLin = MultiTeamRatingSystem::new(k);
    let t: Vec<(&[WengLinRating], MultiTeamOutcome)> =
        vec![(&a, ranked(rank("ra"))), (&b, ranked(rank("rb"))), (&c, ranked(rank("rc")))];
    let (x, y) = (MultiTeamRatingSystem::rate(&s, &t), weng_lin_multi_team(&t, &k));
    check_int_eq("teams", x.len(), 3);
    for_each_index(a.len(), |i| {
        check_eq("rate", x[0][i].rating, y[0][i].rating);
        check_eq("rate, uncertainty", x[0][i].uncertainty, y[0][i].uncertainty);
    });
    for_each_index(c.len(), |i| {
        check_eq("rate", x[2][i].rating, y[2][i].rating);
        check_eq("rate, uncertainty", x[2][i].uncertainty, y[2][i].uncertainty);
    });
    let p = MultiTeamRatingSystem::expected_score(&s, &[&a, &b, &c]);
    let q = expected_score_multi_team(&[&a, &b, &c], &k);
    check_int_eq("one expectation per team", p.len(), 3);
    for i in 0..3 {
        check_eq("expectation", p[i], q[i]);
    }
}
pub fn h_c17_wenglin() {
    let (r, d) = (any_f64("r", -10000.0, 10000.0), any_f64("d", 0.0, 1000.0));
    check_eq("new", WengLinRating::new().rating, 25.0);
    check_eq("new, uncertainty", WengLinRating::new().uncertainty, 25.0 / 3.0);
    check_eq("default", WengLinRating::default().rating, 25.0);
    check_eq("default, uncertainty", WengLinRating::default().uncertainty, 25.0 / 3.0);
    for k in [WengLinConfig::new(), WengLinConfig::default()] {
        check_eq("default beta", k.beta, 25.0 / 6.0);
        check_eq("default tolerance", k.uncertainty_tolerance, 0.000001);
    }
    let x = WengLinRating::from((r, d));
    check_eq("from pair", x.rating, r);
    check_eq("from pair, uncertainty", x.uncertainty, d);
    let x: WengLinRating = Rating::new(Some(r), Some(d));
    check_eq("trait new", x.rating, r);
    check_eq("trait new, uncertainty", x.uncertainty, d);
    check_eq("trait getter", Rating::rating(&x), r);
    check("trait uncertainty", Rating::uncertainty(&x) == Some(d));
    let x: WengLinRating = Rating::new(None, None);
    check_eq("trait new without a rating", x.rating, 25.0);
    check_eq("trait new without an uncertainty", x.uncertainty, 25.0 / 3.0);
    let x = WengLinRating::from(TrueSkillRating { rating: r, uncertainty: d });
    check_eq("from TrueSkill", x.rating, r);
    check_eq("from TrueSkill, uncertainty", x.uncertainty, d);
}
pub fn h_c17_outcomes() {
    let (r, s) = (rank("r"), rank("s"));
    check_int_eq("rank is kept", MultiTeamOutcome::new(r).rank(), r);
    check_int_eq("rank from number", MultiTeamOutcome::from(r).rank(), r);
    check_int_eq("number from rank", usize::from(MultiTeamOutcome::new(r)), r);
    check("ranks are ordered as their numbers", (MultiTeamOutcome::new(r) < MultiTeamOutcome::new(s)) == (r < s));
    check("ranks are equal as their numbers", (MultiTeamOutcome::new(r) == MultiTeamOutcome::new(s)) == (r == s));
    let o = any_outcome("o");
    check_eq("chess points", o.to_chess_points(), score(o));
}
pub fn h_c24_wenglin() {
    let (a, b, c) = (player("a", "ad"), player("b", "bd"), config());
    let o = any_outcome("o");
    let (x, y) = weng_lin(&a, &b, &o, &c);
    let (u, v) = (one(&a, &b, score(o), &c), one(&b, &a, 1.0 - score(o), &c));
    check_eq("first rating", x.rating, u.0);
    check_eq("first uncertainty", x.uncertainty, u.1);
    check_eq("second rating", y.rating, v.0);
    check_eq("second uncertainty", y.uncertainty, v.1);
    let s = scale(a.uncertainty * a.uncertainty, b.uncertainty * b.uncertainty, c.beta);
    check_eq("expectation", expected_score(&a, &b, &c).0, win(a.rating, b.rating, s));
}
pub fn h_c24_wenglin_teams() {
    let (a, b, c) = (team_a(), team_b(), config());
    let o = any_outcome("o");
    let (x, y) = weng_lin_two_teams(&a, &b, &o, &c);
    let (ra, va, rb, vb) = (ratings(&a), variance(&a), ratings(&b), variance(&b));
    let first = versus(ra, va, rb, vb, score(o), c.beta);
    let second = versus(rb, vb, ra, va, 1.0 - score(o), c.beta);
    for_each_index(a.len(), |i| {
        let u = updated(&a[i], va, first.0, first.1, c.uncertainty_tolerance);
        check_eq("first team, rating", x[i].rating, u.0);
        check_eq("first team, uncertainty", x[i].uncertainty, u.1);
    });
    for_each_index(b.len(), |i| {
        let u = updated(&b[i], vb, second.0, second.1, c.uncertainty_tolerance);
        check_eq("second team, rating", y[i].rating, u.0);
        check_eq("second team, uncertainty", y[i].uncertainty, u.1);
    });
    check_eq("expectation", expected_score_two_teams(&a, &b, &c).0, win(ra, rb, scale(va, vb, c.beta)));
}
pub fn h_c24_wenglin_multi() {
    let (a, b, c) = (team_a(), team_b(), team_c());
    let k = config();
    let (r, s, t) = (rank("ra"), rank("rb"), rank("rc"));
    let x = weng_lin_multi_team(&[(&a, ranked(r)), (&b, ranked(s)), (&c, ranked(t))], &k);
    let (ra, va, rb, vb, rc, vc) = (ratings(&a), variance(&a), ratings(&b), variance(&b), ratings(&c), variance(&c));
    let (ab, ac) = (versus(ra, va, rb, vb, placed(r, s), k.beta), versus(ra, va, rc, vc, placed(r, t), k.beta));
    for_each_index(a.len(), |i| {
        let u = updated(&a[i], va, ab.0 + ac.0, ab.1 + ac.1, k.uncertainty_tolerance);
        check_eq("first team, rating", x[0][i].rating, u.0);
        check_eq("first team, uncertainty", x[0][i].uncertainty, u.1);
    });
    let (ba, bc) = (versus(rb, vb, ra, va, placed(s, r), k.beta), versus(rb, vb, rc, vc, placed(s, t), k.beta));
    for_each_index(b.len(), |i| {
        let u = updated(&b[i], vb, ba.0 + bc.0, ba.1 + bc.1, k.uncertainty_tolerance);
        check_eq("second team, rating", x[1][i].rating, u.0);
        check_eq("second team, uncertainty", x[1][i].uncertainty, u.1);
    });
    let (ca, cb) = (versus(rc, vc, ra, va, placed(t, r), k.beta), versus(rc, vc, rb, vb, placed(t, s), k.beta));
    for_each_index(c.len(), |i| {
        let u = updated(&c[i], vc, ca.0 + cb.0, ca.1 + cb.1, k.uncertainty_tolerance);
        check_eq("third team, rating", x[2][i].rating, u.0);
        check_eq("third team, uncertainty", x[2][i].uncertainty, u.1);
    });
}
pub fn h_c24_wenglin_many() {
    let teams = any_vec("teams", 1, MANY, |_| (any_vec("t", 1, MANY, |_| player("a", "ad")), rank("r")));
    let refs: Vec<(&[WengLinRating], MultiTeamOutcome)> = teams.iter().map(|t| (&t.0[..], ranked(t.1))).collect();
    let k = config();
    let x = weng_lin_multi_team(&refs, &k);
    for_each_index(teams.len(), |i| {
        let (ri, vi) = (ratings(&teams[i].0), variance(&teams[i].0));
        let mut omega = 0.0;
        let mut delta = 0.0;
        for (q, t) in teams.iter().enumerate() {
            if q != i {
                let (o, d) = versus(ri, vi, ratings(&t.0), variance(&t.0), placed(teams[i].1, t.1), k.beta);
                omega += o;
                delta += d;
            }
        }
        for_each_index(teams[i].0.len(), |j| {
            let u = updated(&teams[i].0[j], vi, omega, delta, k.uncertainty_tolerance);
            check_eq("rating", x[i][j].rating, u.0);
            check_eq("uncertainty", x[i][j].uncertainty, u.1);
        });
    });
}
pub fn h_c24_wenglin_expect() {
    let (a, b, c) = (team_a(), team_b(), team_c());
    let k = config();
    let x = expected_score_multi_team(&[&a, &b, &c], &k);
    let s = (variance(&a) + variance(&b) + variance(&c) + 2.0 * k.beta * k.beta).sqrt();
    let (p, q) = ((ratings(&b) - ratings(&a)) / s, (ratings(&c) - ratings(&a)) / s);
    check_eq("expectation of the first team", x[0], 1.0 / (1.0 + p.exp() + q.exp()));
}
