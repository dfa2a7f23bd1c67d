pub use http::{header, Method};
