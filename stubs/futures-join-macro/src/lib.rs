//! Stand-in (not available offline): the repository uses neither macro.
#[macro_export]
macro_rules! join { ($($t:tt)*) => { compile_error!("join! stand-in") }; }
#[macro_export]
macro_rules! try_join { ($($t:tt)*) => { compile_error!("try_join! stand-in") }; }
