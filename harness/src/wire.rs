//! Reference encoders and strict parsers of the TLS 1.2 messages, written from RFC 5246 / 4492 / 8422.

pub const SUITE: u16 = 0xcca8;
pub const SECP256R1: u16 = 23;

pub fn u16b(n: usize) -> [u8; 2] {
    assert!(n < 1 << 16);
    [(n >> 8) as u8, n as u8]
}
pub fn u24b(n: usize) -> [u8; 3] {
    assert!(n < 1 << 24);
    [(n >> 16) as u8, (n >> 8) as u8, n as u8]
}

/// a handshake message with its header
pub fn hs(ty: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![ty];
    v.extend_from_slice(&u24b(body.len()));
    v.extend_from_slice(body);
    v
}

/// a record as it is on the wire
pub fn rec(ty: u8, ver: (u8, u8), body: &[u8]) -> Vec<u8> {
    let mut v = vec![ty, ver.0, ver.1];
    v.extend_from_slice(&u16b(body.len()));
    v.extend_from_slice(body);
    v
}

#[derive(Clone, Debug, PartialEq)]
pub struct ServerHello {
    pub version: (u8, u8),
    pub random: [u8; 32],
    pub session_id: Vec<u8>,
    pub suite: u16,
    pub comp: u8,
    pub exts: Option<Vec<(u16, Vec<u8>)>>,
}

impl ServerHello {
    pub fn new(random: [u8; 32]) -> ServerHello {
        ServerHello { version: (3, 3), random, session_id: vec![], suite: SUITE, comp: 0, exts: None }
    }
    pub fn body(&self) -> Vec<u8> {
        let mut v = vec![self.version.0, self.version.1];
        v.extend_from_slice(&self.random);
        v.push(self.session_id.len() as u8);
        v.extend_from_slice(&self.session_id);
        v.extend_from_slice(&u16b(self.suite as usize));
        v.push(self.comp);
        if let Some(e) = &self.exts {
            v.extend_from_slice(&exts(e));
        }
        v
    }
}

pub fn exts(e: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut x = vec![];
    for (t, d) in e {
        x.extend_from_slice(&u16b(*t as usize));
        x.extend_from_slice(&u16b(d.len()));
        x.extend_from_slice(d);
    }
    let mut v = u16b(x.len()).to_vec();
    v.extend(x);
    v
}

pub fn certificate(certs: &[Vec<u8>]) -> Vec<u8> {
    let mut x = vec![];
    for c in certs {
        x.extend_from_slice(&u24b(c.len()));
        x.extend_from_slice(c);
    }
    let mut v = u24b(x.len()).to_vec();
    v.extend(x);
    v
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ske {
    pub curve_type: u8,
    pub curve: u16,
    pub point: Vec<u8>,
    pub hash: u8,
    pub sig: u8,
    pub signature: Vec<u8>,
}

impl Ske {
    pub fn new(point: Vec<u8>) -> Ske {
        Ske { curve_type: 3, curve: SECP256R1, point, hash: 4, sig: 1, signature: vec![0xa5; 256] }
    }
    pub fn body(&self) -> Vec<u8> {
        let mut v = vec![self.curve_type];
        v.extend_from_slice(&u16b(self.curve as usize));
        v.push(self.point.len() as u8);
        v.extend_from_slice(&self.point);
        v.push(self.hash);
        v.push(self.sig);
        v.extend_from_slice(&u16b(self.signature.len()));
        v.extend_from_slice(&self.signature);
        v
    }
}

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Cur<'a> {
        Cur { b, pos: 0 }
    }
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.b.len() - self.pos < n {
            return Err(format!("short: wanted {} at {} of {}", n, self.pos, self.b.len()));
        }
        let r = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> Result<usize, String> {
        Ok(self.take(1)?[0] as usize)
    }
    pub fn u16(&mut self) -> Result<usize, String> {
        let b = self.take(2)?;
        Ok((b[0] as usize) << 8 | b[1] as usize)
    }
    pub fn u24(&mut self) -> Result<usize, String> {
        let b = self.take(3)?;
        Ok((b[0] as usize) << 16 | (b[1] as usize) << 8 | b[2] as usize)
    }
    pub fn end(&self) -> bool {
        self.pos == self.b.len()
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct ClientHello {
    pub version: (u8, u8),
    pub random: Vec<u8>,
    pub session_id: Vec<u8>,
    pub suites: Vec<u16>,
    pub comps: Vec<u8>,
    pub exts: Option<Vec<(u16, Vec<u8>)>>,
}

/// strict parse of a ClientHello body: every length consistent, nothing left over
pub fn client_hello(b: &[u8]) -> Result<ClientHello, String> {
    let mut c = Cur::new(b);
    let mut h = ClientHello::default();
    let v = c.take(2)?;
    h.version = (v[0], v[1]);
    h.random = c.take(32)?.to_vec();
    let n = c.u8()?;
    if n > 32 {
        return Err("session id too long".into());
    }
    h.session_id = c.take(n)?.to_vec();
    let n = c.u16()?;
    if n < 2 || n % 2 != 0 {
        return Err("bad cipher suite list length".into());
    }
    for s in c.take(n)?.chunks(2) {
        h.suites.push((s[0] as u16) << 8 | s[1] as u16);
    }
    let n = c.u8()?;
    if n < 1 {
        return Err("no compression methods".into());
    }
    h.comps = c.take(n)?.to_vec();
    if !c.end() {
        let n = c.u16()?;
        let e = c.take(n)?;
        if !c.end() {
            return Err("trailing bytes after the extensions".into());
        }
        let mut d = Cur::new(e);
        let mut v = vec![];
        while !d.end() {
            let t = d.u16()? as u16;
            let n = d.u16()?;
            let x = d.take(n)?.to_vec();
            if v.iter().any(|(u, _): &(u16, Vec<u8>)| *u == t) {
                return Err(format!("duplicate extension {}", t));
            }
            v.push((t, x));
        }
        h.exts = Some(v);
    }
    Ok(h)
}

impl ClientHello {
    pub fn body(&self) -> Vec<u8> {
        let mut v = vec![self.version.0, self.version.1];
        v.extend_from_slice(&self.random);
        v.push(self.session_id.len() as u8);
        v.extend_from_slice(&self.session_id);
        v.extend_from_slice(&u16b(self.suites.len() * 2));
        for s in &self.suites {
            v.extend_from_slice(&u16b(*s as usize));
        }
        v.push(self.comps.len() as u8);
        v.extend_from_slice(&self.comps);
        if let Some(e) = &self.exts {
            v.extend_from_slice(&exts(e));
        }
        v
    }
    pub fn ext(&self, t: u16) -> Option<&[u8]> {
        self.exts.as_ref()?.iter().find(|(u, _)| *u == t).map(|(_, d)| &d[..])
    }
    /// u16 lists inside extensions (curves, signature algorithms)
    pub fn ext_u16s(&self, t: u16) -> Result<Vec<u16>, String> {
        let d = self.ext(t).ok_or(format!("extension {} missing", t))?;
        let mut c = Cur::new(d);
        let n = c.u16()?;
        if n % 2 != 0 || n == 0 {
            return Err(format!("extension {}: bad length", t));
        }
        let l = c.take(n)?.chunks(2).map(|s| (s[0] as u16) << 8 | s[1] as u16).collect();
        if !c.end() {
            return Err(format!("extension {}: trailing bytes", t));
        }
        Ok(l)
    }
}

/// What any well-formed ClientHello of this library has to say: it offers what the server may choose.
pub fn check_client_hello(h: &ClientHello) -> Result<(), String> {
    if h.version != (3, 3) {
        return Err(format!("ClientHello offers version {:?}", h.version));
    }
    if !h.suites.contains(&SUITE) {
        return Err("ClientHello does not offer the suite".into());
    }
    for s in &h.suites {
        // signalling values are harmless; any other suite would have to be implemented
        if *s != SUITE && *s != 0x00ff && *s != 0x5600 {
            return Err(format!("ClientHello offers suite {:#06x}", s));
        }
    }
    if h.comps != [0] {
        return Err(format!("ClientHello offers compressions {:?}", h.comps));
    }
    if h.ext_u16s(10)? != [SECP256R1] {
        return Err(format!("ClientHello offers curves {:?}", h.ext_u16s(10)?));
    }
    if h.ext(11) != Some(&[1, 0][..]) {
        return Err(format!("ClientHello offers point formats {:?}", h.ext(11)));
    }
    if h.ext_u16s(13)? != [0x0401] {
        return Err(format!("ClientHello offers signature algorithms {:?}", h.ext_u16s(13)?));
    }
    Ok(())
}
