//! OpenSSL, through Python's ssl module, as the peer: one process per case.
use std::io::BufRead;
use std::process::{Child, Command, Stdio};

pub struct OpenSsl {
    child: Child,
    out: std::io::BufReader<std::process::ChildStdout>,
    port: u16,
}

impl OpenSsl {
    pub fn start() -> OpenSsl {
        let mut child = Command::new("/usr/bin/env")
            .args(["python3", &format!("{}/harness/data/server.py", crate::mon::verif_dir())])
            .stdout(Stdio::piped())
            .stdin(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start python3");
        let mut out = std::io::BufReader::new(child.stdout.take().unwrap());
        let mut line = String::new();
        out.read_line(&mut line).unwrap();
        let port = line.trim().parse().expect("the OpenSSL peer did not start");
        OpenSsl { child, out, port }
    }
    pub fn connect(&self) -> std::net::TcpStream {
        let t = std::net::TcpStream::connect(("127.0.0.1", self.port)).expect("loopback");
        t.set_read_timeout(Some(std::time::Duration::from_secs(20))).unwrap();
        t
    }
    /// what it says when a connection is over: "eof" (the client closed), "closed" (it did), or an error
    pub fn verdict(&mut self) -> String {
        let mut line = String::new();
        self.out.read_line(&mut line).unwrap();
        line.trim().to_string()
    }
}

impl Drop for OpenSsl {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
