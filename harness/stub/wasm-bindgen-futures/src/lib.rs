//! Futures that the page would run; the harnesses run theirs themselves.
pub fn spawn_local<F: std::future::Future<Output = ()> + 'static>(_f: F) { panic!("nothing runs futures in the background") }
