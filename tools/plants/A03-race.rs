//! property: A03
//! needs: two tasks on different threads that receive from one socket
//! breaks: a message is returned with the sender of another one
//! edit src/lib.rs
    pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        self.read_with(|io| io.recv_from(buf)).await
//! ===
    pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        self.read_with(|io| {
            // The sender first: the message is gone once it has been received.
            let (_, addr) = io.peek_from(&mut [0])?;
            Ok((io.recv(buf)?, addr))
        })
        .await
//! >>>
fn main() {
    watchdog(100);
    use std::net::UdpSocket;
    let s = Arc::new(Async::<UdpSocket>::bind(([127, 0, 0, 1], 0)).unwrap());
    let to = s.get_ref().local_addr().unwrap();
    let stop = Arc::new(AtomicBool::new(false));
    let bad = Arc::new(AtomicUsize::new(0));
    let n = Arc::new(AtomicUsize::new(0));
    for _ in 0..3 {
        let (s, bad, n) = (s.clone(), bad.clone(), n.clone());
        thread::spawn(move || loop {
            let mut buf = [0; 16];
            let (l, from) = run(s.recv_from(&mut buf)).unwrap();
            if l != 2 || u16::from_le_bytes([buf[0], buf[1]]) != from.port() {
                bad.fetch_add(1, SeqCst);
            }
            n.fetch_add(1, SeqCst);
        });
    }
    for _ in 0..3 {
        let stop = stop.clone();
        thread::spawn(move || {
            let u = UdpSocket::bind(("127.0.0.1", 0)).unwrap();
            let p = u.local_addr().unwrap().port().to_le_bytes();
            while !stop.load(SeqCst) {
                let _ = u.send_to(&p, to);
                if u.local_addr().unwrap().port() % 2 == 0 {
                    thread::yield_now();
                }
            }
        });
    }
    until(20.0, || bad.load(SeqCst) > 0 || n.load(SeqCst) > 1_000_000);
    stop.store(true, SeqCst);
    check(bad.load(SeqCst) == 0, "a message came with the address of another sender");
}
