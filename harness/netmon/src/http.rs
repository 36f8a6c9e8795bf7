//! A raw HTTP/1.1 client that hides nothing.
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::time::Duration;

pub struct Conn {
    pub s: TcpStream,
    buf: Vec<u8>,
    pub dead: bool,
}
#[derive(Debug, Clone)]
pub struct Reply {
    pub status: u16,
    pub head: String,
    pub body: Vec<u8>,
}
pub type E = String;

pub fn enc(s: &str, style: u64) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        let plain = b.is_ascii_alphanumeric() || matches!(b, b'-' | b'_' | b'.' | b'~');
        if plain && style != 2 {
            o.push(b as char);
        } else if b == b' ' && style == 1 {
            o.push('+');
        } else if style == 3 {
            o.push_str(&format!("%{b:02x}"));
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}

impl Conn {
    pub fn new(port: u16) -> Result<Conn, E> {
        let s = TcpStream::connect(("127.0.0.1", port)).map_err(|e| format!("connect: {e}"))?;
        let _ = s.set_nodelay(true);
        let _ = s.set_read_timeout(Some(Duration::from_secs(40)));
        let _ = s.set_write_timeout(Some(Duration::from_secs(40)));
        Ok(Conn { s, buf: vec![], dead: false })
    }
    pub fn raw(&mut self, b: &[u8]) -> Result<(), E> {
        self.s.write_all(b).map_err(|e| {
            self.dead = true;
            format!("send: {e}")
        })
    }
    pub fn timeout(&self, d: Duration) {
        let _ = self.s.set_read_timeout(Some(d));
    }
    pub fn half_close(&self) {
        let _ = self.s.shutdown(Shutdown::Write);
    }
    fn fill(&mut self) -> Result<(), E> {
        let mut t = [0_u8; 65536];
        match self.s.read(&mut t) {
            Ok(0) => {
                self.dead = true;
                Err("closed".into())
            }
            Ok(n) => {
                self.buf.extend_from_slice(&t[..n]);
                Ok(())
            }
            Err(e) => {
                self.dead = true;
                Err(format!("receive: {e}"))
            }
        }
    }
    fn line(&mut self) -> Result<String, E> {
        loop {
            if let Some(i) = self.buf.windows(2).position(|w| w == b"\r\n") {
                let l: Vec<u8> = self.buf.drain(..i + 2).collect();
                return Ok(String::from_utf8_lossy(&l[..i]).into_owned());
            }
            self.fill()?;
        }
    }
    fn exactly(&mut self, n: usize) -> Result<Vec<u8>, E> {
        while self.buf.len() < n {
            self.fill()?;
        }
        Ok(self.buf.drain(..n).collect())
    }
    pub fn reply(&mut self, head_only: bool) -> Result<Reply, E> {
        let first = self.line()?;
        let status: u16 = first
            .strip_prefix("HTTP/1.1 ")
            .or_else(|| first.strip_prefix("HTTP/1.0 "))
            .and_then(|r| r.get(..3))
            .and_then(|s| s.parse().ok())
            .ok_or_else(|| format!("not a status line: {first:?}"))?;
        let mut head = first + "\n";
        let (mut len, mut chunked) = (None, false);
        loop {
            let l = self.line()?;
            if l.is_empty() {
                break;
            }
            let low = l.to_ascii_lowercase();
            if let Some(v) = low.strip_prefix("content-length:") {
                len = Some(v.trim().parse::<usize>().map_err(|_| format!("bad length {l:?}"))?);
            }
            if low.starts_with("transfer-encoding:") && low.contains("chunked") {
                chunked = true;
            }
            if low.starts_with("connection:") && low.contains("close") {
                self.dead = true;
            }
            head.push_str(&l);
            head.push('\n');
        }
        let mut body = vec![];
        if head_only || status == 204 || status == 304 || status < 200 {
        } else if chunked {
            loop {
                let l = self.line()?;
                let n = usize::from_str_radix(l.split(';').next().unwrap_or("").trim(), 16).map_err(|_| format!("bad chunk {l:?}"))?;
                body.extend(self.exactly(n)?);
                if self.line()? != "" {
                    return Err("bad chunk end".into());
                }
                if n == 0 {
                    break;
                }
            }
        } else if let Some(n) = len {
            body = self.exactly(n)?;
        } else {
            while self.fill().is_ok() {}
            body = std::mem::take(&mut self.buf);
            self.dead = true;
        }
        if status == 100 {
            return self.reply(head_only);
        }
        Ok(Reply { status, head, body })
    }
    pub fn send(&mut self, method: &str, target: &str, body: &[u8], chunked: bool) -> Result<(), E> {
        let mut m = format!("{method} {target} HTTP/1.1\r\nHost: souris\r\n").into_bytes();
        if chunked {
            m.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            for c in body.chunks(body.len() / 3 + 1) {
                m.extend(format!("{:x}\r\n", c.len()).bytes());
                m.extend(c);
                m.extend(b"\r\n");
            }
            m.extend(b"0\r\n\r\n");
        } else {
            if !body.is_empty() || method != "GET" {
                m.extend(format!("Content-Length: {}\r\n", body.len()).bytes());
            }
            m.extend(b"\r\n");
            m.extend(body);
        }
        self.raw(&m)
    }
    pub fn call(&mut self, method: &str, target: &str, body: &[u8]) -> Result<Reply, E> {
        self.send(method, target, body, false)?;
        self.reply(method == "HEAD")
    }
}
