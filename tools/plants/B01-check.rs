//! property: B01
//! needs: a wakeup between the check for notifications and the moment the thread is marked as blocked on I/O
//! breaks: the wakeup does not interrupt the wait for events, and the future is not polled
//! edit src/driver.rs
                    // Check if a notification has been received before `io_blocked` was updated
                    // because in that case the reactor won't receive a wakeup.
                    if p.park_timeout(Duration::from_secs(0)) {
                        tracing::trace!("notified");
                        break;
                    }

//! ===
//! >>>
fn main() {
    stress();
}
