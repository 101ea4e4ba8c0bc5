pub use xecs;
