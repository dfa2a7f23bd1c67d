pub mod cors {
    #[derive(Clone, Copy)]
    pub struct Any;
    pub struct CorsLayer;
    impl CorsLayer { pub fn new() -> Self { Self } pub fn allow_methods<T>(self, _: T) -> Self { self } pub fn allow_origin<T>(self, _: T) -> Self { self } pub fn allow_headers<T>(self, _: T) -> Self { self } }
}
