pub use burn::backend::{NdArray, NdArrayDevice};
