//! A symbol server on the loopback interface with scripted answers.
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Get {
    Good,
    /// a cabinet with the file in it
    Cab,
    /// a cabinet that breaks off
    CabCut,
    /// a cabinet without the file
    CabOther,
    Chunked,
    /// end of the answer: end of the connection
    Close,
    /// to a place that has it
    Redirect,
    Cut,
    CutChunked,
    Empty,
    NotFoundText,
    /// the same with an explanation
    NotFoundLong,
    /// a single byte
    Tiny,
    /// more than any buffer holds
    Big,
    Page404,
    Page500,
    Page403,
    Partial,
    /// no answer
    Drop,
    /// to an error page
    RedirectBad,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Head {
    Ok,
    Missing,
    Error,
    Drop,
    Redirect,
    NoContent,
}

#[derive(Clone, Debug)]
pub struct Answer {
    pub head: Head,
    pub get: Get,
    /// the answers take some time
    pub slow: bool,
    pub plain: Vec<u8>,
    pub cab: Vec<u8>,
}

impl Get {
    pub fn good(&self) -> bool {
        matches!(self, Get::Good | Get::Cab | Get::Chunked | Get::Close | Get::Redirect | Get::Tiny | Get::Big)
    }
}
impl Head {
    pub fn good(&self) -> bool {
        matches!(self, Head::Ok | Head::Redirect)
    }
}

#[derive(Default)]
pub struct State {
    pub answers: HashMap<String, Answer>,
    pub log: Vec<String>,
}

pub struct Server {
    pub port: u16,
    pub st: Arc<Mutex<State>>,
}

impl Server {
    pub fn new() -> Self {
        let l = TcpListener::bind("127.0.0.1:0").expect("bind");
        let port = l.local_addr().unwrap().port();
        let st: Arc<Mutex<State>> = Default::default();
        let s2 = st.clone();
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                let st = s2.clone();
                std::thread::spawn(move || {
                    let _ = serve(c, &st);
                });
            }
        });
        Server { port, st }
    }
    pub fn set(&self, answers: HashMap<String, Answer>) {
        let mut s = self.st.lock().unwrap();
        s.answers = answers;
        s.log.clear();
    }
    pub fn log(&self) -> Vec<String> {
        self.st.lock().unwrap().log.clone()
    }
}

fn serve(mut c: TcpStream, st: &Mutex<State>) -> std::io::Result<()> {
    c.set_read_timeout(Some(std::time::Duration::from_secs(5)))?;
    let mut b = vec![];
    let mut t = [0; 2048];
    while !b.windows(4).any(|w| w == b"\r\n\r\n") {
        let n = c.read(&mut t)?;
        if n == 0 {
            return Ok(());
        }
        b.extend_from_slice(&t[..n]);
    }
    let req = String::from_utf8_lossy(&b).into_owned();
    let mut f = req.split_whitespace();
    let (m, path) = (f.next().unwrap_or("").to_string(), f.next().unwrap_or("").to_string());
    let head = m == "HEAD";
    let (redirected, key) = match path.strip_prefix("/moved") {
        Some(p) => (true, p.to_string()),
        None => (false, path.clone()),
    };
    let a = {
        let mut s = st.lock().unwrap();
        s.log.push(format!("{m} {path}"));
        s.answers.get(&key).cloned()
    };
    if a.as_ref().map_or(false, |a| a.slow) {
        std::thread::sleep(std::time::Duration::from_millis(40));
    }
    let mut out = vec![];
    let mut say = |status: &str, body: &[u8], len: Option<usize>, extra: &str| {
        out.extend_from_slice(format!("HTTP/1.1 {status}\r\nConnection: close\r\n{extra}").as_bytes());
        if let Some(l) = len {
            out.extend_from_slice(format!("Content-Length: {l}\r\n").as_bytes());
        }
        out.extend_from_slice(b"\r\n");
        if !head {
            out.extend_from_slice(body);
        }
    };
    let page = |s: &str| format!("<html><body><h1>{s}</h1>{}</body></html>", "x".repeat(300)).into_bytes();
    match a {
        None => {
            let p = page("404");
            say("404 Not Found", &p, Some(p.len()), "");
        }
        Some(a) if head => match a.head {
            Head::Ok => say("200 OK", b"", Some(a.plain.len()), ""),
            Head::Redirect if redirected => say("200 OK", b"", Some(a.plain.len()), ""),
            Head::Redirect => say("302 Found", b"", Some(0), &format!("Location: /moved{path}\r\n")),
            Head::Missing => say("404 Not Found", b"", Some(0), ""),
            Head::Error => say("503 Busy", b"", Some(0), ""),
            Head::NoContent => say("204 No Content", b"", None, ""),
            Head::Drop => (),
        },
        Some(a) => {
            let p = &a.plain;
            let chunked = |cut: bool| {
                let mut b = vec![];
                for c in p.chunks(1000) {
                    b.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                    b.extend_from_slice(c);
                    b.extend_from_slice(b"\r\n");
                    if cut && b.len() > p.len() / 2 {
                        return b;
                    }
                }
                b.extend_from_slice(b"0\r\n\r\n");
                b
            };
            match a.get {
                Get::NotFoundLong => say("200 OK", b"Symbol Not Found\r\nSomething else.\r\n", Some(35), ""),
                Get::Good | Get::Tiny | Get::Big => say("200 OK", p, Some(p.len()), ""),
                Get::Redirect if redirected => say("200 OK", p, Some(p.len()), ""),
                Get::RedirectBad if redirected => say("404 Not Found", &page("404"), Some(page("404").len()), ""),
                Get::Redirect | Get::RedirectBad => say("302 Found", b"moved", Some(5), &format!("Location: /moved{path}\r\n")),
                Get::Cab => say("200 OK", &a.cab, Some(a.cab.len()), ""),
                Get::CabCut => say("200 OK", &a.cab[..a.cab.len() - 100], Some(a.cab.len() - 100), ""),
                Get::CabOther => {
                    let c = crate::download::cabinet(&[("some.txt", p)], true);
                    say("200 OK", &c, Some(c.len()), "");
                }
                Get::Chunked => say("200 OK", &chunked(false), None, "Transfer-Encoding: chunked\r\n"),
                Get::CutChunked => say("200 OK", &chunked(true), None, "Transfer-Encoding: chunked\r\n"),
                Get::Close => say("200 OK", p, None, ""),
                Get::Cut => say("200 OK", &p[..p.len() - 7], Some(p.len()), ""),
                Get::Empty => say("200 OK", b"", Some(0), ""),
                Get::NotFoundText => say("200 OK", b"Symbol Not Found", Some(16), ""),
                Get::Page404 => say("404 Not Found", &page("404"), Some(page("404").len()), ""),
                Get::Page403 => say("403 Forbidden", &page("403"), Some(page("403").len()), ""),
                Get::Page500 => say("500 Error", &page("500"), Some(page("500").len()), ""),
                Get::Partial => say("206 Partial Content", &p[..100], Some(100), "Content-Range: bytes 0-99/5000\r\n"),
                Get::Drop => (),
            }
        }
    }
    c.write_all(&out)?;
    c.shutdown(std::net::Shutdown::Write)?;
    let _ = c.read(&mut t);
    Ok(())
}
