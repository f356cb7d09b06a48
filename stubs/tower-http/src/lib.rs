//! Stand-in: names only. No request of the checks passes a network.

pub mod cors {
    #[derive(Clone, Copy, Debug)]
    pub struct Any;

    #[derive(Clone, Debug, Default)]
    pub struct CorsLayer;

    impl CorsLayer {
        pub fn new() -> Self {
            CorsLayer
        }

        pub fn allow_methods<T>(self, _: T) -> Self {
            self
        }

        pub fn allow_origin<T>(self, _: T) -> Self {
            self
        }

        pub fn allow_headers<T>(self, _: T) -> Self {
            self
        }
    }
}
