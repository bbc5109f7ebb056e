pub mod cal;
pub mod earth;
pub mod frames;
pub mod geo;
pub mod maths;
pub mod sun;
pub mod sys;
pub mod time;
