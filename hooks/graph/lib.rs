pub use crate::async_flag::{AsyncCounter, AsyncFlag};
pub use crate::fancy_cancellation_token::{CancellationState, CancellationToken};
pub use crate::graphtheory::{blevel_dag, descendants_at_distance, tlevel_dag, transitive_closure_dag};
pub use crate::server::{router, AppError, State};
pub use crate::time::gcra::RateLimiter;
pub use crate::time::timewheel::{TimeWheel, TimerID};
