pub mod checks;
pub mod api;
pub mod pairs;
pub mod sat;
pub mod eng;
pub mod lat;
pub mod refm;
pub mod replay;
#[allow(clippy::all)]
#[rustfmt::skip]
pub mod tables;
pub mod outer;
pub mod surf;
pub mod chain;
pub mod bind;
pub mod conc;
pub mod seam;
