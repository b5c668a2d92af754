//! Type-level stand-in for env_logger.
pub fn init() {}
