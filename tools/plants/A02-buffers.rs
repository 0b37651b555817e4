//! property: A02
//! needs: a vectored write that fits only in part
//! breaks: the part that was written is written again
//! edit src/lib.rs
            match unsafe { (*self).get_mut() }.write_vectored(bufs) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return Poll::Ready(res),
            }
//! ===
            let io = unsafe { (*self).get_mut() };
            let all = bufs.iter().try_fold(0, |n, buf| Ok(n + io.write(buf)?));
            match all {
                Err(err) if io::Error::kind(&err) == io::ErrorKind::WouldBlock => {}
                res => return Poll::Ready(res),
            }
//! >>>
fn main() {
    watchdog(60);
    use std::os::unix::net::UnixStream;
    let (mut a, b) = Async::<UnixStream>::pair().unwrap();
    let reader = thread::spawn(move || {
        let mut got = vec![];
        run(async {
            let mut buf = [0; 3000];
            Timer::after(ms(100)).await;
            loop {
                let n = (&b).read(&mut buf).await.unwrap();
                if n == 0 { break }
                got.extend_from_slice(&buf[..n]);
            }
        });
        got
    });
    let data: Vec<u8> = (0..3_000_000u32).map(|x| (x ^ x >> 8 ^ x >> 16) as u8).collect();
    run(async {
        let mut off = 0;
        while off < data.len() {
            let n = (data.len() - off).min(9000);
            let (x, y) = data[off..off + n].split_at(n / 2);
            off += future::poll_fn(|cx| Pin::new(&mut a).poll_write_vectored(cx, &[io::IoSlice::new(x), io::IoSlice::new(y)])).await.unwrap();
        }
    });
    drop(a);
    check(reader.join().unwrap() == data, "the bytes read are not the bytes written");
}
