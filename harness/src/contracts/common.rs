//! specification vocabulary shared by the contracts
use crate::rt::*;
use skillratings::Outcomes;

/// any number of results / opponents
pub const MANY: usize = 1 << 20;

/// score of the first player
pub fn score(o: Outcomes) -> f64 {
    match o {
        Outcomes::WIN => 1.0,
        Outcomes::DRAW => 0.5,
        Outcomes::LOSS => 0.0,
    }
}
/// the same result seen from the other side
pub fn flip(o: Outcomes) -> Outcomes {
    match o {
        Outcomes::WIN => Outcomes::LOSS,
        Outcomes::LOSS => Outcomes::WIN,
        Outcomes::DRAW => Outcomes::DRAW,
    }
}
/// published logistic expectation with scale `s`
pub fn logistic(a: f64, b: f64, s: f64) -> f64 {
    1.0 / (1.0 + 10f64.powf((b - a) / s))
}
pub fn probabilities(x: f64, y: f64) {
    check_le("first expectation is at least 0", 0.0, x);
    check_le("first expectation is at most 1", x, 1.0);
    check_le("second expectation is at least 0", 0.0, y);
    check_le("second expectation is at most 1", y, 1.0);
    check_eq("expectations sum to 1", x + y, 1.0);
}
/// better result, no lower rating
pub fn ordered(win: f64, draw: f64, loss: f64) {
    check_le("a win gives at least as much as a draw", draw, win);
    check_le("a draw gives at least as much as a loss", loss, draw);
}
/// Glicko: scale constant, attenuation by the opponent's deviation, expectation
pub fn glicko_q() -> f64 {
    10f64.ln() / 400.0
}
pub fn glicko_g(deviation: f64) -> f64 {
    let q = glicko_q();
    let pi = std::f64::consts::PI;
    1.0 / (1.0 + 3.0 * q * q * deviation * deviation / (pi * pi)).sqrt()
}
pub fn glicko_e(a: f64, b: f64, deviation: f64) -> f64 {
    1.0 / (1.0 + 10f64.powf(-glicko_g(deviation) * (a - b) / 400.0))
}
