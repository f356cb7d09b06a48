//! Stand-in for common/apm: the same names, but observations are kept in memory where a check can read them.
//! (The real crate needs prometheus, minstant and a git fork of rustracing, none of which is available here.)

pub mod metrics;
pub mod tracing;

pub use common_apm_derive::{metrics_rpc, trace_span};
pub use std::time::Instant;
pub use tracing::TraceId;

pub mod server {
    pub async fn run_prometheus_server(_: std::net::SocketAddr) {}
}
