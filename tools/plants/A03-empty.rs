//! property: A03
//! needs: an empty datagram
//! breaks: recv drops it and waits for the next one
//! edit src/lib.rs
    /// let len = socket.recv(&mut buf).await?;
    /// # std::io::Result::Ok(()) });
    /// ```
    pub async fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.read_with(|io| io.recv(buf)).await
    }

    /// Receives a single datagram message from the connected peer without removing it from the
//! ===
    /// let len = socket.recv(&mut buf).await?;
    /// # std::io::Result::Ok(()) });
    /// ```
    pub async fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        loop {
            let n = self.read_with(|io| io.recv(buf)).await?;
            if n > 0 || buf.is_empty() {
                return Ok(n);
            }
        }
    }

    /// Receives a single datagram message from the connected peer without removing it from the
//! >>>
fn main() {
    watchdog(10);
    use std::net::UdpSocket;
    let a = Async::<UdpSocket>::bind(([127, 0, 0, 1], 0)).unwrap();
    let b = Async::<UdpSocket>::bind(([127, 0, 0, 1], 0)).unwrap();
    a.get_ref().connect(b.get_ref().local_addr().unwrap()).unwrap();
    b.get_ref().connect(a.get_ref().local_addr().unwrap()).unwrap();
    run(async {
        check(a.send(b"").await.unwrap() == 0, "sent");
        check(a.send(b"abc").await.unwrap() == 3, "sent");
        let mut buf = [0; 16];
        check(b.recv(&mut buf).await.unwrap() == 0, "the empty message is missing");
        check(b.recv(&mut buf).await.unwrap() == 3, "the second message is missing");
    });
}
