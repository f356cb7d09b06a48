//! Stand-in: names only. No request of the checks passes a network.

#[derive(Clone, Debug, Default)]
pub struct ServiceBuilder<L>(pub L);

impl ServiceBuilder<()> {
    pub fn new() -> Self {
        ServiceBuilder(())
    }
}

impl<L> ServiceBuilder<L> {
    pub fn layer<T>(self, layer: T) -> ServiceBuilder<(T, L)> {
        ServiceBuilder((layer, self.0))
    }
}
