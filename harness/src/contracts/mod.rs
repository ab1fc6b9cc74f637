pub mod common;
pub mod elo;
pub mod fifa;
pub mod egf;
pub mod ingo;
pub mod dwz;
pub mod uscf;
pub mod glicko;
pub mod sticko;
pub mod boost;
pub mod glicko2;
pub mod wenglin;
pub mod trueskill;
