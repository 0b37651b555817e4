//! property: A02
//! needs: a write that is accepted in part and then blocks
//! breaks: the part accepted is forgotten, and the caller writes it again
//! edit src/lib.rs
            match (*self).get_ref().write(buf) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return Poll::Ready(res),
            }
            ready!(self.poll_writable(cx))?;
//! ===
            // Hand as much as possible to the OS before giving way.
            let mut total = 0;
            loop {
                match (*self).get_ref().write(&buf[total..]) {
                    Err(err) if err.kind() == io::ErrorKind::WouldBlock => break,
                    Ok(n) if n > 0 && total + n < buf.len() => total += n,
                    Ok(n) => return Poll::Ready(Ok(total + n)),
                    res => return Poll::Ready(res),
                }
            }
            ready!(self.poll_writable(cx))?;
//! >>>
fn main() {
    watchdog(60);
    use std::os::unix::net::UnixStream;
    let (a, b) = Async::<UnixStream>::pair().unwrap();
    let data: Vec<u8> = (0..3_000_000u32).map(|i| (i % 251) as u8).collect();
    let d2 = data.clone();
    let t = thread::spawn(move || {
        run(async {
            let mut s = &a;
            s.write_all(&d2).await.unwrap();
            s.close().await.unwrap();
        });
        a.get_ref().shutdown(std::net::Shutdown::Write).unwrap();
    });
    let mut got = vec![];
    run(async {
        let mut buf = vec![0; 10_000];
        loop {
            let n = (&b).read(&mut buf).await.unwrap();
            if n == 0 {
                break;
            }
            got.extend_from_slice(&buf[..n]);
            check(got.len() <= data.len(), "more bytes arrive than were written");
        }
    });
    check(got == data, "the bytes that arrive are not those written");
}
