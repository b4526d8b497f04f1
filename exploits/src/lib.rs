pub use mdarray;
