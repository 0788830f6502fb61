//! C12: the codec is exact, canonical and independent of fragmentation.
//!
//! Values are generated together with the bytes RFC 5246/4492 prescribe for them (written here, from the
//! RFCs); the monitor watches tls_write, tls_size, tls_read and HandshakeBuffer on them, and judges the
//! decoding of arbitrary bytes by a strict parser of its own.
use husk::alert::{Alert, AlertDescription, AlertLevel};
use husk::cipher::ecdhe::{EcData, EcParameters, EcdheServerKeyExchange, ServerEcdhParams};
use husk::cipher::CipherSuite;
use husk::handshake::{self as h, *};
use husk::signature::{DigitallySigned, Signature};
use husk::tls::{Message, TlsReader, TlsWriter, RECORD_MAX_LEN};
use husk::tls_item::{DummyItem, ObscureData, TlsItem};
use husk::tls_result::TlsErrorKind;
use huskmon::mon::{self, husk, Case, Mon, Verdict};
use huskmon::prng::Rng;
use huskmon::wire::{u16b, u24b, Cur};
use huskmon::{ensure, mutate, refc, wire};
use std::io::Cursor;

const CURVES: [(NamedCurve, u16); 27] = [
    (NamedCurve::sect163k1, 1), (NamedCurve::sect163r1, 2), (NamedCurve::sect163r2, 3),
    (NamedCurve::sect193r1, 4), (NamedCurve::sect193r2, 5), (NamedCurve::sect233k1, 6),
    (NamedCurve::sect233r1, 7), (NamedCurve::sect239k1, 8), (NamedCurve::sect283k1, 9),
    (NamedCurve::sect283r1, 10), (NamedCurve::sect409k1, 11), (NamedCurve::sect409r1, 12),
    (NamedCurve::sect571k1, 13), (NamedCurve::sect571r1, 14), (NamedCurve::secp160k1, 15),
    (NamedCurve::secp160r1, 16), (NamedCurve::secp160r2, 17), (NamedCurve::secp192k1, 18),
    (NamedCurve::secp192r1, 19), (NamedCurve::secp224k1, 20), (NamedCurve::secp224r1, 21),
    (NamedCurve::secp256k1, 22), (NamedCurve::secp256r1, 23), (NamedCurve::secp384r1, 24),
    (NamedCurve::secp521r1, 25),
    (NamedCurve::arbitrary_explicit_prime_curves, 0xff01),
    (NamedCurve::arbitrary_explicit_char2_curves, 0xff02),
];
const FORMATS: [(ECPointFormat, u8); 3] = [
    (ECPointFormat::uncompressed, 0), (ECPointFormat::ansiX962_compressed_prime, 1),
    (ECPointFormat::ansiX962_compressed_char2, 2),
];
const HASHES: [(HashAlgorithm, u8); 7] = [
    (HashAlgorithm::none, 0), (HashAlgorithm::md5, 1), (HashAlgorithm::sha1, 2),
    (HashAlgorithm::sha224, 3), (HashAlgorithm::sha256, 4), (HashAlgorithm::sha384, 5),
    (HashAlgorithm::sha512, 6),
];
const SIGS: [(SignatureAlgorithm, u8); 4] = [
    (SignatureAlgorithm::anonymous, 0), (SignatureAlgorithm::rsa, 1), (SignatureAlgorithm::dsa, 2),
    (SignatureAlgorithm::ecdsa, 3),
];
const COMPS: [(CompressionMethod, u8); 2] = [(CompressionMethod::null, 0), (CompressionMethod::DEFLATE, 1)];
const CERT_TYPES: [(ClientCertificateType, u8); 7] = [
    (ClientCertificateType::rsa_sign, 1), (ClientCertificateType::dss_sign, 2),
    (ClientCertificateType::rsa_fixed_dh, 3), (ClientCertificateType::dss_fixed_dh, 4),
    (ClientCertificateType::rsa_ephemeral_dh_RESERVED, 5), (ClientCertificateType::dss_ephemeral_dh_RESERVED, 6),
    (ClientCertificateType::fortezza_dms_RESERVED, 20),
];
const LEVELS: [(AlertLevel, u8); 2] = [(AlertLevel::warning, 1), (AlertLevel::fatal, 2)];
use AlertDescription as AD;
const ALERTS: [(AD, u8); 29] = [
    (AD::close_notify, 0), (AD::unexpected_message, 10), (AD::bad_record_mac, 20),
    (AD::decryption_failed_RESERVED, 21), (AD::record_overflow, 22), (AD::decompression_failure, 30),
    (AD::handshake_failure, 40), (AD::no_certificate_RESERVED, 41), (AD::bad_certificate, 42),
    (AD::unsupported_certificate, 43), (AD::certificate_revoked, 44), (AD::certificate_expired, 45),
    (AD::certificate_unknown, 46), (AD::illegal_parameter, 47), (AD::unknown_ca, 48),
    (AD::access_denied, 49), (AD::decode_error, 50), (AD::decrypt_error, 51),
    (AD::export_restriction_RESERVED, 60), (AD::protocol_version, 70), (AD::insufficient_security, 71),
    (AD::internal_error, 80), (AD::user_canceled, 90), (AD::no_renegotiation, 100),
    (AD::unsupported_extension, 110), (AD::certificate_unobtainable, 111), (AD::unrecognized_name, 112),
    (AD::bad_certificate_status_response, 113), (AD::bad_certificate_hash_value, 114),
];
const SUITE: CipherSuite = CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256;

/// the reference side of a value
#[derive(Clone, Debug)]
enum Ext {
    Curves(Vec<usize>),
    Formats(Vec<usize>),
    SigAlgs(Vec<(usize, usize)>),
    Unknown(u16, Vec<u8>),
}
#[derive(Clone, Debug)]
enum Val {
    HelloRequest,
    ClientHello { ver: (u8, u8), random: Vec<u8>, sid: Vec<u8>, suites: usize, comps: Vec<usize>, exts: Option<Vec<Ext>> },
    ServerHello { ver: (u8, u8), random: Vec<u8>, sid: Vec<u8>, comp: usize, exts: Option<Vec<Ext>> },
    Certificate(Vec<Vec<u8>>),
    Ske(Vec<u8>),
    CertReq { types: Vec<usize>, algs: Vec<(usize, usize)>, names: Vec<Vec<u8>> },
    Done,
    Cke(Vec<u8>),
    Finished(Vec<u8>),
}

fn ext_ref(e: &Ext) -> (u16, Vec<u8>) {
    match e {
        Ext::Curves(l) => {
            let mut v = u16b(l.len() * 2).to_vec();
            l.iter().for_each(|i| v.extend(CURVES[*i].1.to_be_bytes()));
            (10, v)
        }
        Ext::Formats(l) => {
            let mut v = vec![l.len() as u8];
            l.iter().for_each(|i| v.push(FORMATS[*i].1));
            (11, v)
        }
        Ext::SigAlgs(l) => {
            let mut v = u16b(l.len() * 2).to_vec();
            l.iter().for_each(|(a, b)| v.extend([HASHES[*a].1, SIGS[*b].1]));
            (13, v)
        }
        Ext::Unknown(t, d) => (*t, d.clone()),
    }
}
fn exts_ref(e: &Option<Vec<Ext>>) -> Vec<u8> {
    e.as_ref().map_or(vec![], |l| wire::exts(&l.iter().map(ext_ref).collect::<Vec<_>>()))
}
fn vec8(d: &[u8]) -> Vec<u8> {
    let mut v = vec![d.len() as u8];
    v.extend(d);
    v
}
fn vec16(d: &[u8]) -> Vec<u8> {
    let mut v = u16b(d.len()).to_vec();
    v.extend(d);
    v
}
fn sigalgs_ref(l: &[(usize, usize)]) -> Vec<u8> {
    vec16(&l.iter().flat_map(|(a, b)| [HASHES[*a].1, SIGS[*b].1]).collect::<Vec<_>>())
}

impl Val {
    fn ty(&self) -> u8 {
        match self {
            Val::HelloRequest => 0,
            Val::ClientHello { .. } => 1,
            Val::ServerHello { .. } => 2,
            Val::Certificate(_) => 11,
            Val::Ske(_) => 12,
            Val::CertReq { .. } => 13,
            Val::Done => 14,
            Val::Cke(_) => 16,
            Val::Finished(_) => 20,
        }
    }
    fn body(&self) -> Vec<u8> {
        match self {
            Val::HelloRequest | Val::Done => vec![],
            Val::ClientHello { ver, random, sid, suites, comps, exts } => {
                let mut v = vec![ver.0, ver.1];
                v.extend(random);
                v.extend(vec8(sid));
                v.extend(vec16(&[0xcc, 0xa8].repeat(*suites)));
                v.extend(vec8(&comps.iter().map(|i| COMPS[*i].1).collect::<Vec<_>>()));
                v.extend(exts_ref(exts));
                v
            }
            Val::ServerHello { ver, random, sid, comp, exts } => {
                let mut v = vec![ver.0, ver.1];
                v.extend(random);
                v.extend(vec8(sid));
                v.extend([0xcc, 0xa8, COMPS[*comp].1]);
                v.extend(exts_ref(exts));
                v
            }
            Val::Certificate(l) => wire::certificate(l),
            Val::Ske(d) | Val::Cke(d) | Val::Finished(d) => d.clone(),
            Val::CertReq { types, algs, names } => {
                let mut v = vec8(&types.iter().map(|i| CERT_TYPES[*i].1).collect::<Vec<_>>());
                v.extend(sigalgs_ref(algs));
                v.extend(vec16(&names.iter().flat_map(|n| vec16(n)).collect::<Vec<_>>()));
                v
            }
        }
    }
    fn bytes(&self) -> Vec<u8> {
        wire::hs(self.ty(), &self.body())
    }
}

/// husk's value, built through its public constructors
fn algs(l: &[(usize, usize)]) -> Vec<SignatureAndHashAlgorithm> {
    l.iter().map(|(a, b)| SignatureAndHashAlgorithm { hash: HASHES[*a].0, signature: SIGS[*b].0 }).collect()
}
fn ext(e: &Ext) -> Result<Extension, String> {
    let r = match e {
        Ext::Curves(l) => Extension::new_elliptic_curve_list(l.iter().map(|i| CURVES[*i].0).collect()),
        Ext::Formats(l) => Extension::new_ec_point_formats(l.iter().map(|i| FORMATS[*i].0).collect()),
        Ext::SigAlgs(l) => Extension::new_signature_algorithm_list(algs(l)),
        Ext::Unknown(t, d) => Ok(Extension::Unknown(*t, d.clone())),
    };
    r.map_err(|e| format!("a valid extension is refused: {:?}", e))
}
fn exts(e: &Option<Vec<Ext>>) -> Result<Option<ExtensionVec>, String> {
    match e {
        None => Ok(None),
        Some(l) => {
            let v = l.iter().map(ext).collect::<Result<Vec<_>, _>>()?;
            ExtensionVec::new(v).map(Some).map_err(|e| format!("a valid extension list is refused: {:?}", e))
        }
    }
}
fn ok<T>(what: &str, r: husk::tls_result::TlsResult<T>) -> Result<T, String> {
    r.map_err(|e| format!("a valid {} is refused: {:?}", what, e))
}
fn build(v: &Val) -> Result<Handshake, String> {
    Ok(match v {
        Val::HelloRequest => Handshake::hello_request(DummyItem),
        Val::Done => Handshake::server_hello_done(DummyItem),
        Val::ClientHello { ver, random, sid, suites, comps, exts: e } => Handshake::client_hello(ClientHello {
            client_version: ProtocolVersion { major: ver.0, minor: ver.1 },
            random: ok("random", Random::new(random.clone()))?,
            session_id: ok("session id", SessionId::new(sid.clone()))?,
            cipher_suites: ok("suite list", CipherSuiteVec::new(vec![SUITE; *suites]))?,
            compression_methods: ok("compression list", CompressionMethodVec::new(comps.iter().map(|i| COMPS[*i].0).collect()))?,
            extensions: exts(e)?,
        }),
        Val::ServerHello { ver, random, sid, comp, exts: e } => Handshake::server_hello(ServerHello {
            server_version: ProtocolVersion { major: ver.0, minor: ver.1 },
            random: ok("random", Random::new(random.clone()))?,
            session_id: ok("session id", SessionId::new(sid.clone()))?,
            cipher_suite: SUITE,
            compression_method: COMPS[*comp].0,
            extensions: exts(e)?,
        }),
        Val::Certificate(l) => {
            let v = l.iter().map(|c| ok("certificate", Asn1Cert::new(c.clone()))).collect::<Result<Vec<_>, _>>()?;
            Handshake::certificate(ok("certificate list", CertificateList::new(v))?)
        }
        Val::Ske(d) => Handshake::server_key_exchange(ObscureData::new(d.clone())),
        Val::Cke(d) => ok("ClientKeyExchange", Handshake::new_client_key_exchange(d.clone()))?,
        Val::Finished(d) => ok("Finished", Handshake::new_finished(d.clone()))?,
        Val::CertReq { types, algs: a, names } => {
            let n = names.iter().map(|n| ok("name", DistinguishedName::new(n.clone()))).collect::<Result<Vec<_>, _>>()?;
            Handshake::certificate_request(CertificateRequest {
                certificate_types: ok("type list", CertificiateTypeVec::new(types.iter().map(|i| CERT_TYPES[*i].0).collect()))?,
                supported_signature_algorithms: ok("algorithm list", SignatureAndHashAlgorithmVec::new(algs(a)))?,
                certificate_authorities: ok("name list", DistinguishedNameVec::new(n))?,
            })
        }
    })
}

fn same_ext(a: &Option<ExtensionVec>, b: &Option<Vec<Ext>>) -> Verdict {
    match (a, b) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) => {
            ensure!(a.len() == b.len(), "{} extensions decoded, {} encoded", a.len(), b.len());
            for (x, y) in a.iter().zip(b) {
                let good = match (x, y) {
                    (Extension::elliptic_curves(l), Ext::Curves(m)) => {
                        l.len() == m.len() && l.iter().zip(m).all(|(p, q)| *p == CURVES[*q].0)
                    }
                    (Extension::ec_point_formats(l), Ext::Formats(m)) => {
                        l.len() == m.len() && l.iter().zip(m).all(|(p, q)| *p == FORMATS[*q].0)
                    }
                    (Extension::signature_algorithms(l), Ext::SigAlgs(m)) => same_algs(l, m),
                    (Extension::Unknown(t, d), Ext::Unknown(u, e)) => t == u && d == e,
                    _ => false,
                };
                ensure!(good, "extension {:?} decodes to a different value", short(y));
            }
            Ok(())
        }
        _ => Err(format!("extensions present: decoded {}, encoded {}", a.is_some(), b.is_some())),
    }
}
fn same_algs(l: &[SignatureAndHashAlgorithm], m: &[(usize, usize)]) -> bool {
    l.len() == m.len() && l.iter().zip(m).all(|(p, q)| p.hash == HASHES[q.0].0 && p.signature == SIGS[q.1].0)
}
/// the decoded message says what was encoded
fn same(a: &Handshake, b: &Val) -> Verdict {
    let good = match (a, b) {
        (Handshake::hello_request(_), Val::HelloRequest) | (Handshake::server_hello_done(_), Val::Done) => true,
        (Handshake::client_hello(x), Val::ClientHello { ver, random, sid, suites, comps, exts }) => {
            same_ext(&x.extensions, exts)?;
            (x.client_version.major, x.client_version.minor) == *ver
                && x.random[..] == random[..]
                && x.session_id[..] == sid[..]
                && x.cipher_suites.len() == *suites
                && x.cipher_suites.iter().all(|s| *s == SUITE)
                && x.compression_methods.len() == comps.len()
                && x.compression_methods.iter().zip(comps).all(|(p, q)| *p == COMPS[*q].0)
        }
        (Handshake::server_hello(x), Val::ServerHello { ver, random, sid, comp, exts }) => {
            same_ext(&x.extensions, exts)?;
            (x.server_version.major, x.server_version.minor) == *ver
                && x.random[..] == random[..]
                && x.session_id[..] == sid[..]
                && x.cipher_suite == SUITE
                && x.compression_method == COMPS[*comp].0
        }
        (Handshake::certificate(x), Val::Certificate(l)) => {
            x.len() == l.len() && x.iter().zip(l).all(|(p, q)| p[..] == q[..])
        }
        (Handshake::server_key_exchange(x), Val::Ske(d)) => x[..] == d[..],
        (Handshake::client_key_exchange(x), Val::Cke(d)) => x[..] == d[..],
        (Handshake::finished(x), Val::Finished(d)) => x[..] == d[..],
        (Handshake::certificate_request(x), Val::CertReq { types, algs, names }) => {
            x.certificate_types.len() == types.len()
                && x.certificate_types.iter().zip(types).all(|(p, q)| *p == CERT_TYPES[*q].0)
                && same_algs(&x.supported_signature_algorithms, algs)
                && x.certificate_authorities.len() == names.len()
                && x.certificate_authorities.iter().zip(names).all(|(p, q)| p[..] == q[..])
        }
        _ => false,
    };
    ensure!(good, "decodes to a different value than was encoded: {}", short(b));
    Ok(())
}

fn short(v: &impl std::fmt::Debug) -> String {
    let s = format!("{:?}", v);
    if s.len() > 300 { format!("{}… ({} characters)", &s[..300], s.len()) } else { s }
}
fn hexs(b: &[u8]) -> String {
    if b.len() > 120 { format!("{}… ({} bytes)", refc::hex(&b[..120]), b.len()) } else { refc::hex(b) }
}

fn list(r: &mut Rng, n: usize, of: usize) -> Vec<usize> {
    (0..n).map(|_| r.below(of)).collect()
}
fn gen_algs(r: &mut Rng, n: usize) -> Vec<(usize, usize)> {
    (0..n).map(|_| (r.below(7), r.below(4))).collect()
}
fn gen_ext(r: &mut Rng, room: usize) -> Ext {
    match r.below(5) {
        0 if room > 2 => {
            let n = 1 + r.size((room - 2) / 2 - (room > 3) as usize);
            Ext::Curves(list(r, n.min((room - 2) / 2).max(1), 27))
        }
        1 => {
            let n = r.range(1, 255);
            Ext::Formats(list(r, n, 3))
        }
        2 if room > 4 => {
            let n = (1 + r.size(room / 2)).min((room - 2) / 2);
            Ext::SigAlgs(gen_algs(r, n))
        }
        _ => {
            let mut t = r.u64() as u16;
            if r.chance(1, 3) {
                t = *r.pick(&[0, 9, 12, 14, 16, 0xff01, 0xffff, 0x0a00, 0x0b0b]);
            }
            if matches!(t, 10 | 11 | 13) {
                t = 23;
            }
            let n = r.size(room);
            Ext::Unknown(t, r.bytes(n))
        }
    }
}
fn gen_exts(r: &mut Rng) -> Option<Vec<Ext>> {
    if r.chance(1, 4) {
        return None;
    }
    let mut v: Vec<Ext> = vec![];
    let mut room = if r.chance(1, 5) { 65535 } else { 1500 };
    for _ in 0..r.below(7) {
        if room < 300 {
            break;
        }
        let e = gen_ext(r, room - 300);
        let (t, d) = ext_ref(&e);
        if v.iter().any(|x| ext_ref(x).0 == t) || d.len() + 4 > room {
            continue;
        }
        room -= d.len() + 4;
        v.push(e);
    }
    Some(v)
}
fn gen(r: &mut Rng) -> Val {
    let small = r.chance(3, 4);
    let ver = if r.chance(1, 2) { (3, 3) } else { (r.u8(), r.u8()) };
    let sid = {
        let n = r.range(0, 32);
        r.bytes(n)
    };
    match r.below(10) {
        0 => Val::HelloRequest,
        1 => Val::Done,
        2 | 3 => {
            let suites = if small { r.range(1, 40) } else { r.range(1, 32767) };
            let n = r.range(1, if small { 4 } else { 255 });
            Val::ClientHello { ver, random: r.bytes(32), sid, suites, comps: list(r, n, 2), exts: gen_exts(r) }
        }
        4 | 5 => Val::ServerHello { ver, random: r.bytes(32), sid, comp: r.below(2), exts: gen_exts(r) },
        6 => {
            let n = r.below(6);
            Val::Certificate((0..n).map(|_| { let k = 1 + r.size(if small { 2000 } else { 70_000 }); r.bytes(k) }).collect())
        }
        7 => {
            let n = r.size(if small { 300 } else { 200_000 });
            if r.chance(1, 2) { Val::Ske(r.bytes(n)) } else { Val::Cke(r.bytes(n)) }
        }
        8 => {
            let (a, b) = (r.range(1, 255), if small { r.range(1, 20) } else { r.range(1, 32767) });
            let n = r.below(8);
            Val::CertReq {
                types: list(r, a, 7),
                algs: gen_algs(r, b),
                names: (0..n).map(|_| { let k = 1 + r.size(if small { 200 } else { 8000 }); r.bytes(k) }).collect(),
            }
        }
        _ => Val::Finished(r.bytes(12)),
    }
}

fn enc<T: TlsItem>(t: &T) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    husk(|| t.tls_write(&mut v)).map_err(|e| format!("encoding fails: {:?}", e))?;
    Ok(v)
}

/// encode, size, decode (exact consumption, also with bytes behind it), re-encode
fn item<T: TlsItem>(c: &mut Case, what: &str, t: &T, want: &[u8], delimited: bool) -> Result<T, String> {
    let got = enc(t).map_err(|e| format!("{}: {}", what, e))?;
    if got != want {
        return Err(format!("{}: encoded as {} instead of {}", what, hexs(&got), hexs(want)));
    }
    let n = husk(|| t.tls_size());
    if n != want.len() as u64 {
        return Err(format!("{}: reports size {}, is {} bytes", what, n, want.len()));
    }
    let mut cur = Cursor::new(want);
    let back: T = husk(|| T::tls_read(&mut cur)).map_err(|e| format!("{}: does not decode: {:?} ({})", what, e, hexs(want)))?;
    if cur.position() != want.len() as u64 {
        return Err(format!("{}: decoding took {} of {} bytes", what, cur.position(), want.len()));
    }
    if delimited {
        let mut more = want.to_vec();
        let k = c.rng.range(1, 8);
        more.extend(c.rng.bytes(k));
        let mut cur = Cursor::new(&more[..]);
        let b2: T = husk(|| T::tls_read(&mut cur)).map_err(|e| format!("{}: does not decode in front of other data: {:?}", what, e))?;
        if cur.position() != want.len() as u64 {
            return Err(format!("{}: decoding took {} bytes of an item of {}", what, cur.position(), want.len()));
        }
        if enc(&b2)? != want {
            return Err(format!("{}: decodes differently in front of other data", what));
        }
    }
    let again = enc(&back)?;
    if again != want || husk(|| back.tls_size()) != want.len() as u64 {
        return Err(format!("{}: decodes to something that encodes to {} instead of {}", what, hexs(&again), hexs(want)));
    }
    c.count("items encoded and decoded", 1);
    Ok(back)
}

fn value(c: &mut Case) -> Verdict {
    let v = gen(&mut c.rng);
    value_of(c, v)
}

/// vectors of every length
fn every_length(c: &mut Case) -> Verdict {
    let n = c.idx;
    let r = &mut c.rng;
    let (ver, random) = ((3, 3), r.bytes(32));
    let sid = r.bytes(n % 33);
    let exts = |r: &mut Rng| Some(vec![Ext::Unknown(35, r.bytes(n)), Ext::Curves(list(r, n / 2 + 1, 27)), Ext::SigAlgs(gen_algs(r, n / 2 + 1)), Ext::Formats(list(r, n % 255 + 1, 3))]);
    let all = vec![
        Val::ClientHello { ver, random: random.clone(), sid: sid.clone(), suites: n + 1, comps: list(r, n % 255 + 1, 2), exts: exts(r) },
        Val::ServerHello { ver, random, sid, comp: 0, exts: exts(r) },
        Val::Certificate(vec![r.bytes(n + 1), r.bytes(1), r.bytes(n + 1)]),
        Val::Certificate(vec![vec![9]; n]),
        Val::Ske(r.bytes(n)),
        Val::Cke(r.bytes(n)),
        Val::CertReq { types: list(r, n % 255 + 1, 7), algs: gen_algs(r, n + 1), names: vec![r.bytes(n + 1), r.bytes(2)] },
    ];
    for v in all {
        let mut b = v.bytes();
        value_of(c, v)?;
        // a byte too few, a byte too many
        if b.len() > 4 {
            b.pop();
            let l = wire::u24b(b.len() - 4);
            b[1..4].copy_from_slice(&l);
            against(c, &b)?;
            b.extend(c.rng.bytes(2));
            let l = wire::u24b(b.len() - 4);
            b[1..4].copy_from_slice(&l);
            against(c, &b)?;
        }
    }
    Ok(())
}

fn value_of(c: &mut Case, v: Val) -> Verdict {
    let want = v.bytes();
    let m = husk(|| build(&v))?;
    let back = item(c, &short(&v), &m, &want, false)?;
    same(&back, &v)?;
    // in any reader
    struct Drip<'a>(&'a [u8], usize);
    impl std::io::Read for Drip<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let n = b.len().min(self.0.len()).min(self.1);
            b[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            self.1 = self.1 % 7 + 1;
            Ok(n)
        }
    }
    let d = husk(|| Handshake::tls_read(&mut Drip(&want, 1))).map_err(|e| format!("{} in pieces: {:?}", short(&v), e))?;
    same(&d, &v)?;
    // written through the record layer and read back
    let mut w = TlsWriter::new(Vec::new());
    ok("handshake message", husk(|| w.write_handshake(&m)))?;
    let out = w.get_mut().clone();
    let (frags, n) = records(&out)?;
    ensure!(frags == want, "write_handshake puts other bytes on the wire than the message");
    let mut rd = TlsReader::new(&out[..]);
    match husk(|| rd.read_message()) {
        Ok(Message::HandshakeMessage(x)) => same(&x, &v)?,
        Ok(_) => return Err("a handshake message read back is something else".into()),
        Err(e) => return Err(format!("{} written by the record layer does not read back: {:?}", short(&v), e)),
    }
    c.count("records written", n);
    c.count(
        match v.ty() {
            0 => "HelloRequest", 1 => "ClientHello", 2 => "ServerHello", 11 => "Certificate", 12 => "ServerKeyExchange",
            13 => "CertificateRequest", 14 => "ServerHelloDone", 16 => "ClientKeyExchange", _ => "Finished",
        },
        1,
    );
    c.sig(&want);
    c.sample(|| format!("{} = {}", short(&v), hexs(&want)));
    Ok(())
}

/// the handshake bytes in a stream of records
fn records(b: &[u8]) -> Result<(Vec<u8>, u64), String> {
    let mut cur = Cur::new(b);
    let (mut out, mut n) = (vec![], 0);
    while !cur.end() {
        let h = cur.take(3)?;
        ensure_(h == [22, 3, 3], || format!("record header {:?}", h))?;
        let l = cur.u16()?;
        ensure_(l > 0 && l <= RECORD_MAX_LEN, || format!("record of {} bytes", l))?;
        out.extend(cur.take(l)?);
        n += 1;
    }
    Ok((out, n))
}
fn ensure_(b: bool, f: impl FnOnce() -> String) -> Verdict {
    if b { Ok(()) } else { Err(f()) }
}

/// byte order of the integer helpers
fn bytes_of(x: u64) -> Verdict {
    use husk::util::{u32_be_array, u32_le_array, u64_be_array, u64_le_array, ReadExt, WriteExt};
    let (h, w) = (x as u16, x as u32);
    ensure!(u64_be_array(x) == x.to_be_bytes() && u64_le_array(x) == x.to_le_bytes(), "u64 arrays of {:#x}", x);
    ensure!(u32_be_array(w) == w.to_be_bytes() && u32_le_array(w) == w.to_le_bytes(), "u32 arrays of {:#x}", w);
    let mut v = vec![];
    let r = v.write_u8(x as u8).and(v.write_be_u16(h)).and(v.write_le_u16(h)).and(v.write_be_u32(w))
        .and(v.write_le_u32(w)).and(v.write_be_u64(x)).and(v.write_le_u64(x));
    let mut want = vec![x as u8];
    want.extend(h.to_be_bytes());
    want.extend(h.to_le_bytes());
    want.extend(w.to_be_bytes());
    want.extend(w.to_le_bytes());
    want.extend(x.to_be_bytes());
    want.extend(x.to_le_bytes());
    ensure!(r.is_ok() && v == want, "integers of {:#x} are written as {}", x, hexs(&v));
    let mut s = &want[..];
    let back = (|| -> std::io::Result<bool> {
        Ok(s.read_u8()? == x as u8 && s.read_be_u16()? == h && s.read_le_u16()? == h && s.read_be_u32()? == w
            && s.read_le_u32()? == w && s.read_be_u64()? == x && s.read_le_u64()? == x)
    })();
    ensure!(matches!(back, Ok(true)), "integers of {:#x} are read differently", x);
    Ok(())
}

/// parts and items that are no handshake messages
fn parts(c: &mut Case) -> Verdict {
    let r = &mut c.rng;
    match r.below(9) {
        0 => {
            let x = r.u64();
            let s = r.below(64);
            let x = x >> s;
            item(c, "u8", &(x as u8), &[x as u8], true)?;
            item(c, "u16", &(x as u16), &(x as u16).to_be_bytes(), true)?;
            item(c, "u32", &(x as u32), &(x as u32).to_be_bytes(), true)?;
            let y = item(c, "u64", &x, &x.to_be_bytes(), true)?;
            ensure!(y == x, "u64 {} decodes to {}", x, y);
            bytes_of(x)?;
            c.sigs(x);
        }
        1 => {
            let (l, d) = (*r.pick(&LEVELS), *r.pick(&ALERTS));
            let a = ok("alert", husk(|| Alert::new(l.0, d.0)))?;
            let b = item(c, "alert", &a, &[l.1, d.1], true)?;
            ensure!(b.level == l.0 && b.description == d.0, "alert {} {} decodes to another", l.1, d.1);
            c.sigs((l.1, d.1).0 as u32 * 256 + d.1 as u32);
        }
        2 | 3 => {
            let cv = *r.pick(&CURVES);
            let (hh, s) = (*r.pick(&HASHES), *r.pick(&SIGS));
            let n = r.range(1, 255);
            let p = r.bytes(n);
            let n = r.size(65535);
            let sg = r.bytes(n);
            let k = EcdheServerKeyExchange {
                params: ServerEcdhParams {
                    curve_params: EcParameters::named_curve(cv.0),
                    public: ok("point", EcData::new(p.clone()))?,
                },
                signed_params: DigitallySigned {
                    algorithm: SignatureAndHashAlgorithm { hash: hh.0, signature: s.0 },
                    signature: ok("signature", Signature::new(sg.clone()))?,
                },
            };
            let want = wire::Ske { curve_type: 3, curve: cv.1, point: p.clone(), hash: hh.1, sig: s.1, signature: sg.clone() }.body();
            let b = item(c, "ServerKeyExchange parameters", &k, &want, true)?;
            let EcParameters::named_curve(bc) = b.params.curve_params;
            ensure!(
                bc == cv.0 && b.params.public[..] == p[..] && b.signed_params.algorithm.hash == hh.0
                    && b.signed_params.algorithm.signature == s.0 && b.signed_params.signature[..] == sg[..],
                "ServerKeyExchange parameters decode to another value"
            );
            c.sig(&want);
        }
        4 | 5 => {
            let e = gen_ext(r, 5000);
            let x = ext(&e)?;
            let (t, d) = ext_ref(&e);
            let mut want = t.to_be_bytes().to_vec();
            want.extend(vec16(&d));
            let b = item(c, &short(&e), &x, &want, true)?;
            same_ext(&Some(ok("list", ExtensionVec::new(vec![b]))?), &Some(vec![e]))?;
            c.sig(&want);
        }
        6 => {
            let e = gen_exts(r);
            let x = exts(&e)?;
            let want = exts_ref(&e);
            let b = item(c, &short(&e), &x, &want, false)?;
            same_ext(&b, &e)?;
            c.sig(&want);
        }
        7 => {
            // single values of every enumeration
            let (a, b, d, e, f, g) = (*r.pick(&CURVES), *r.pick(&FORMATS), *r.pick(&HASHES), *r.pick(&SIGS), *r.pick(&COMPS), *r.pick(&CERT_TYPES));
            ensure!(item(c, "curve", &a.0, &a.1.to_be_bytes(), true)? == a.0, "curve {}", a.1);
            ensure!(item(c, "point format", &b.0, &[b.1], true)? == b.0, "point format {}", b.1);
            ensure!(item(c, "hash", &d.0, &[d.1], true)? == d.0, "hash {}", d.1);
            ensure!(item(c, "signature algorithm", &e.0, &[e.1], true)? == e.0, "signature algorithm {}", e.1);
            ensure!(item(c, "compression", &f.0, &[f.1], true)? == f.0, "compression {}", f.1);
            ensure!(item(c, "certificate type", &g.0, &[g.1], true)? == g.0, "certificate type {}", g.1);
            ensure!(item(c, "suite", &SUITE, &[0xcc, 0xa8], true)? == SUITE, "suite");
            c.sigs(a.1 as u64 ^ (b.1 as u64) << 16 ^ (d.1 as u64) << 20 ^ (e.1 as u64) << 24 ^ (g.1 as u64) << 28);
        }
        _ => {
            let n = r.size(3000);
            let d = r.bytes(n);
            let b = item(c, "opaque", &ObscureData::new(d.clone()), &d, false)?;
            ensure!(husk(|| b.unwrap()) == d, "opaque data changes");
            item(c, "nothing", &DummyItem, &[], true)?;
            let rd = c.rng.bytes(32);
            ensure!(item(c, "random", &ok("random", Random::new(rd.clone()))?, &rd, true)?[..] == rd[..], "random changes");
            let n = c.rng.range(0, 32);
            let s = c.rng.bytes(n);
            ensure!(husk(|| item(c, "session id", &ok("sid", SessionId::new(s.clone()))?, &vec8(&s), true))?.unwrap() == s, "session id changes");
            c.sig(&d);
        }
    }
    Ok(())
}

/// sizes at and beyond the limits of every vector: constructors
fn limits(c: &mut Case) -> Verdict {
    type F = Box<dyn Fn(usize) -> bool>;
    fn bytes(n: usize) -> Vec<u8> {
        vec![0x5a; n]
    }
    // (what, smallest count, largest count, constructor)
    let t: Vec<(&str, usize, usize, F)> = vec![
        ("Random", 32, 32, Box::new(|n| Random::new(bytes(n)).is_ok())),
        ("VerifyData", 12, 12, Box::new(|n| VerifyData::new(bytes(n)).is_ok())),
        ("Finished", 12, 12, Box::new(|n| Handshake::new_finished(bytes(n)).is_ok())),
        ("SessionId", 0, 32, Box::new(|n| SessionId::new(bytes(n)).is_ok())),
        ("CipherSuiteVec", 1, 32767, Box::new(|n| CipherSuiteVec::new(vec![SUITE; n]).is_ok())),
        ("CompressionMethodVec", 1, 255, Box::new(|n| CompressionMethodVec::new(vec![CompressionMethod::null; n]).is_ok())),
        ("Asn1Cert", 1, 0xff_ffff, Box::new(|n| Asn1Cert::new(bytes(n)).is_ok())),
        ("EllipticCurveList", 1, 32767, Box::new(|n| EllipticCurveList::new(vec![NamedCurve::secp256r1; n]).is_ok())),
        ("ECPointFormatList", 1, 255, Box::new(|n| ECPointFormatList::new(vec![ECPointFormat::uncompressed; n]).is_ok())),
        ("SignatureAndHashAlgorithmVec", 1, 32767, Box::new(|n| SignatureAndHashAlgorithmVec::new(algs(&vec![(4, 1); n])).is_ok())),
        ("Signature", 0, 65535, Box::new(|n| Signature::new(bytes(n)).is_ok())),
        ("EcData", 1, 255, Box::new(|n| EcData::new(bytes(n)).is_ok())),
        ("CertificiateTypeVec", 1, 255, Box::new(|n| CertificiateTypeVec::new(vec![ClientCertificateType::rsa_sign; n]).is_ok())),
        ("DistinguishedName", 1, 65535, Box::new(|n| DistinguishedName::new(bytes(n)).is_ok())),
        // 3-byte names: 5 bytes each
        ("DistinguishedNameVec", 0, 13107, Box::new(|n| {
            DistinguishedNameVec::new((0..n).map(|_| DistinguishedName::new(bytes(3)).unwrap()).collect()).is_ok()
        })),
        // 1 MB - 3 certificates: 2^20 bytes each
        ("CertificateList", 0, 15, Box::new(|n| {
            CertificateList::new((0..n).map(|_| Asn1Cert::new(bytes((1 << 20) - 3)).unwrap()).collect()).is_ok()
        })),
        // 5-byte extensions
        ("ExtensionVec", 0, 13107, Box::new(|n| {
            ExtensionVec::new((0..n).map(|_| Extension::Unknown(77, bytes(1))).collect()).is_ok()
        })),
        ("ExtensionVec of one", 0, 65531, Box::new(|n| ExtensionVec::new(vec![Extension::Unknown(77, bytes(n))]).is_ok())),
    ];
    let (what, lo, hi, f) = &t[c.idx % t.len()];
    for n in [*lo, lo + 1, (lo + hi) / 2, hi.saturating_sub(1), *hi] {
        if n >= *lo && n <= *hi {
            ensure!(husk(|| f(n)), "{} of {} elements is refused", what, n);
        }
    }
    let mut bad = vec![hi + 1, hi + 2, hi * 2 + 1, hi + 300, hi + 65536];
    if *what == "CertificateList" {
        bad.truncate(2);
        bad[0] = 16;
    }
    if *lo > 0 {
        bad.extend([0, lo - 1, lo / 2]);
    }
    for n in bad {
        ensure!(!husk(|| f(n)), "{} of {} elements is accepted (allowed: {} to {})", what, n, lo, hi);
        c.count("sizes out of range refused", 1);
    }
    c.sigs(what);
    Ok(())
}

/// the longest messages, and those that do not fit their length field
fn extremes(c: &mut Case) -> Verdict {
    const TOP: usize = (1 << 24) - 1;
    match c.idx {
        0 | 1 => {
            let d = vec![c.idx as u8; TOP];
            let v = if c.idx == 0 { Val::Ske(d) } else { Val::Cke(d) };
            let m = build(&v)?;
            let b = item(c, "opaque message of 2^24-1 bytes", &m, &v.bytes(), false)?;
            same(&b, &v)?;
        }
        2 => {
            // one certificate that fills the message
            let v = Val::Certificate(vec![vec![7; TOP - 6]]);
            let m = build(&v)?;
            let b = item(c, "certificate message of 2^24-1 bytes", &m, &v.bytes(), false)?;
            same(&b, &v)?;
        }
        3 | 4 | 5 => {
            // body of 2^24 bytes and more: cannot be encoded
            let m = match c.idx {
                3 => Handshake::client_key_exchange(ObscureData::new(vec![1; TOP + 1])),
                4 => Handshake::server_key_exchange(ObscureData::new(vec![1; TOP + 70_000])),
                _ => Handshake::certificate(ok("list", CertificateList::new(vec![ok("cert", Asn1Cert::new(vec![1; TOP - 3]))?]))?),
            };
            let mut v = vec![];
            ensure!(husk(|| m.tls_write(&mut v)).is_err(), "a message of 2^24 bytes or more is encoded, as {}", hexs(&v));
            let mut w = TlsWriter::new(Vec::new());
            ensure!(husk(|| w.write_handshake(&m)).is_err(), "a message of 2^24 bytes or more is sent");
            ensure!(w.get_mut().is_empty(), "part of a message of 2^24 bytes or more is sent");
        }
        6 | 7 => {
            let n = if c.idx == 6 { 65535 } else { 65536 };
            let e = Extension::Unknown(99, vec![3; n]);
            let mut v = vec![];
            let r = husk(|| e.tls_write(&mut v));
            if n == 65535 {
                ensure!(r.is_ok() && v.len() == 65539 && v[..4] == [0, 99, 0xff, 0xff], "extension of 65535 bytes");
            } else {
                ensure!(r.is_err(), "an extension of 65536 bytes is encoded, as {}", hexs(&v));
            }
        }
        8 | 9 => {
            let n = if c.idx == 8 { 32766 } else { 32767 };
            let e = ext(&Ext::Curves(vec![22; n]))?;
            let mut v = vec![];
            let r = husk(|| e.tls_write(&mut v));
            if n == 32766 {
                ensure!(r.is_ok() && v.len() == 65538 && v[..6] == [0, 10, 0xff, 0xfe, 0xff, 0xfc], "extension of 32766 curves: {:?}", r);
            } else {
                ensure!(r.is_err(), "an extension of 65536 bytes is encoded, as {}", hexs(&v));
            }
        }
        _ => {
            // a message whose length says 2^24-1, arriving in records
            let v = Val::Ske(vec![0x42; TOP]);
            let b = v.bytes();
            let mut hb = HandshakeBuffer::new();
            let mut pos = 0;
            // each poll of an incomplete message is a constant amount of work, or this would not end
            while pos < b.len() {
                let n = 16384.min(b.len() - pos);
                husk(|| hb.add_record(&b[pos..pos + n]));
                pos += n;
                match husk(|| hb.get_message()) {
                    Ok(None) => ensure!(pos < b.len(), "a complete message of 2^24-1 bytes is not recognised"),
                    Ok(Some(m)) => {
                        ensure!(pos == b.len(), "a message of 2^24-1 bytes is complete after {}", pos);
                        same(&m, &v)?;
                        c.count("largest messages assembled", 1);
                    }
                    Err(e) => return Err(format!("a message of 2^24-1 bytes: {:?}", e)),
                }
            }
        }
    }
    c.sigs(c.idx);
    Ok(())
}

/// what a strict decoder has to say
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Accept,
    /// values the library may or may not know; if accepted it must be what was sent
    Either,
    Reject,
}
fn both(a: Want, b: Want) -> Want {
    if a == Want::Reject || b == Want::Reject {
        Want::Reject
    } else if a == Want::Either || b == Want::Either {
        Want::Either
    } else {
        Want::Accept
    }
}
fn known(b: bool) -> Want {
    if b { Want::Accept } else { Want::Either }
}

fn sub<'a>(c: &mut Cur<'a>, n: usize) -> Result<Cur<'a>, String> {
    Ok(Cur::new(c.take(n)?))
}
fn p_exts(c: &mut Cur) -> Result<Want, String> {
    if c.end() {
        return Ok(Want::Accept);
    }
    let n = c.u16()?;
    let mut d = sub(c, n)?;
    if !c.end() {
        return Err("trailing".into());
    }
    let mut w = Want::Accept;
    let mut seen = vec![];
    while !d.end() {
        let t = d.u16()?;
        let n = d.u16()?;
        let mut x = sub(&mut d, n)?;
        if seen.contains(&t) {
            w = both(w, Want::Either);
        }
        seen.push(t);
        w = both(
            w,
            match t {
                10 => {
                    let n = x.u16()?;
                    if n == 0 || n % 2 != 0 {
                        return Err("curve list".into());
                    }
                    let mut w = Want::Accept;
                    for v in x.take(n)?.chunks(2) {
                        let v = (v[0] as u16) << 8 | v[1] as u16;
                        w = both(w, known(CURVES.iter().any(|c| c.1 == v)));
                    }
                    w
                }
                11 => {
                    let n = x.u8()?;
                    if n == 0 {
                        return Err("format list".into());
                    }
                    let mut w = Want::Accept;
                    for v in x.take(n)? {
                        w = both(w, known(*v < 3));
                    }
                    w
                }
                13 => p_algs(&mut x)?,
                _ => {
                    x.take(n)?;
                    Want::Accept
                }
            },
        );
        if !x.end() {
            return Err("trailing bytes in an extension".into());
        }
    }
    Ok(w)
}
fn p_algs(x: &mut Cur) -> Result<Want, String> {
    let n = x.u16()?;
    if n == 0 || n % 2 != 0 {
        return Err("algorithm list".into());
    }
    let mut w = Want::Accept;
    for v in x.take(n)?.chunks(2) {
        w = both(w, known(v[0] < 7 && v[1] < 4));
    }
    Ok(w)
}
fn p_suites(b: &[u8]) -> Want {
    b.chunks(2).map(|s| known(s == [0xcc, 0xa8])).fold(Want::Accept, both)
}
fn p_body(ty: u8, b: &[u8]) -> Result<Want, String> {
    let mut c = Cur::new(b);
    let mut w = Want::Accept;
    match ty {
        0 | 14 => {}
        1 | 2 => {
            c.take(34)?;
            let n = c.u8()?;
            if n > 32 {
                return Err("session id".into());
            }
            c.take(n)?;
            if ty == 1 {
                let n = c.u16()?;
                if n == 0 || n % 2 != 0 {
                    return Err("suites".into());
                }
                w = both(w, p_suites(c.take(n)?));
                let n = c.u8()?;
                if n == 0 {
                    return Err("compressions".into());
                }
                for v in c.take(n)? {
                    w = both(w, known(*v < 2));
                }
            } else {
                w = both(w, p_suites(c.take(2)?));
                w = both(w, known(c.u8()? < 2));
            }
            w = both(w, p_exts(&mut c)?);
        }
        11 => {
            let n = c.u24()?;
            let mut d = sub(&mut c, n)?;
            while !d.end() {
                let n = d.u24()?;
                if n == 0 {
                    return Err("empty certificate".into());
                }
                d.take(n)?;
            }
        }
        12 | 16 => {
            c.take(b.len())?;
        }
        13 => {
            let n = c.u8()?;
            if n == 0 {
                return Err("certificate types".into());
            }
            for v in c.take(n)? {
                w = both(w, known((1..7).contains(v) || *v == 20));
            }
            w = both(w, p_algs(&mut c)?);
            let n = c.u16()?;
            let mut d = sub(&mut c, n)?;
            while !d.end() {
                let n = d.u16()?;
                if n == 0 {
                    return Err("empty name".into());
                }
                d.take(n)?;
            }
        }
        20 => {
            c.take(12)?;
        }
        _ => return Err("type".into()),
    }
    if !c.end() {
        return Err("trailing bytes".into());
    }
    Ok(w)
}
fn judge(b: &[u8]) -> Want {
    if b.len() < 4 || (b[1] as usize) << 16 | (b[2] as usize) << 8 | b[3] as usize != b.len() - 4 {
        return Want::Reject;
    }
    p_body(b[0], &b[4..]).unwrap_or(Want::Reject)
}

/// hold the decoder against the strict parser on one byte string
fn against(c: &mut Case, b: &[u8]) -> Verdict {
    let want = judge(b);
    let mut cur = Cursor::new(b);
    let direct = husk(|| Handshake::tls_read(&mut cur));
    verdict(c, "tls_read", b, want, direct.map_err(|e| e.kind))?;
    // through the buffer: the length field says how much belongs to the message
    let mut hb = HandshakeBuffer::new();
    husk(|| hb.add_record(b));
    let n = if b.len() < 4 { usize::MAX } else { 4 + ((b[1] as usize) << 16 | (b[2] as usize) << 8 | b[3] as usize) };
    let got = husk(|| hb.get_message());
    if n > b.len() {
        ensure!(matches!(got, Ok(None)), "an incomplete message is not waited for: {}", hexs(b));
    } else {
        let m = &b[..n];
        match got {
            Ok(None) => return Err(format!("a complete message is not recognised: {}", hexs(m))),
            Ok(Some(x)) => verdict(c, "HandshakeBuffer", m, judge(m), Ok(x))?,
            Err(e) => {
                ensure!(e.kind != TlsErrorKind::IoFailure, "a malformed message is reported as a transport failure: {}", hexs(m));
                verdict(c, "HandshakeBuffer", m, judge(m), Err(e.kind))?
            }
        }
        if n == b.len() {
            ensure!(matches!(husk(|| hb.get_message()), Ok(None)), "the buffer is not empty after its message was taken");
        }
    }
    Ok(())
}
fn verdict(c: &mut Case, how: &str, b: &[u8], want: Want, got: Result<Handshake, TlsErrorKind>) -> Verdict {
    match got {
        Ok(m) => {
            ensure!(want != Want::Reject, "{} accepts {}", how, hexs(b));
            let n = husk(|| m.tls_size());
            ensure!(n == b.len() as u64, "{}: {} bytes decode to a message that says it has {}: {}", how, b.len(), n, hexs(b));
            let mut v = vec![];
            match husk(|| m.tls_write(&mut v)) {
                Ok(()) => ensure!(v == b, "{}: {} decodes to something that encodes to {}", how, hexs(b), hexs(&v)),
                Err(e) => {
                    // the only thing that may not be encodable is a cipher suite the library does not know
                    ensure!(foreign_suite(b), "{}: {} is accepted but cannot be encoded: {:?}", how, hexs(b), e);
                    c.count("accepted with a foreign cipher suite", 1);
                }
            }
            c.count("byte strings accepted", 1);
        }
        Err(_) => {
            ensure!(want != Want::Accept, "{} refuses a valid message: {}", how, hexs(b));
            if want == Want::Either {
                c.count("refused for unknown values", 1);
            }
            c.count("byte strings refused", 1);
        }
    }
    Ok(())
}
fn foreign_suite(b: &[u8]) -> bool {
    let f = || -> Result<bool, String> {
        let mut c = Cur::new(&b[4..]);
        c.take(34)?;
        let n = c.u8()?;
        c.take(n)?;
        let n = if b[0] == 1 { c.u16()? } else { 2 };
        Ok(p_suites(c.take(n)?) != Want::Accept)
    };
    matches!(b[0], 1 | 2) && f().unwrap_or(false)
}

fn mutated(c: &mut Case) -> Verdict {
    let mut v = small(&mut c.rng);
    let mut b = v.bytes();
    match c.rng.below(5) {
        // the body changes, the header follows
        0 | 1 => {
            let mut d = v.body();
            mutate::several(&mut c.rng, &mut d);
            d.truncate((1 << 24) - 1);
            let ty = if c.rng.chance(1, 8) { c.rng.u8() } else { v.ty() };
            b = wire::hs(ty, &d);
        }
        2 => mutate::several(&mut c.rng, &mut b),
        // an inner length off by a little
        3 => {
            let mut d = v.body();
            if !d.is_empty() {
                let at = c.rng.below(d.len());
                d[at] = d[at].wrapping_add(*c.rng.pick(&[1, 2, 3, 0xff, 0xfe, 0x80]));
                if c.rng.chance(1, 2) {
                    let k = c.rng.range(1, 3);
                    if c.rng.chance(1, 2) {
                        let x = c.rng.bytes(k);
                        let at = c.rng.below(d.len() + 1);
                        d.splice(at..at, x);
                    } else {
                        let l = d.len();
                        d.truncate(l.saturating_sub(k));
                    }
                }
            }
            b = wire::hs(v.ty(), &d);
        }
        _ => {
            // the body of another message
            let w = small(&mut c.rng);
            
            b = wire::hs(*c.rng.pick(&[0, 1, 2, 11, 12, 13, 14, 16, 20, 3, 4, 15, 22]), &w.body());
        }
    }
    against(c, &b)?;
    c.sig(&b);
    Ok(())
}
fn small(r: &mut Rng) -> Val {
    loop {
        let v = gen(r);
        if v.body().len() < 800 {
            return v;
        }
    }
}

/// every value of every byte, every prefix and every extension of one message of each kind
fn every_byte(c: &mut Case, full: bool) -> Verdict {
    let kinds: [Val; 9] = [
        Val::HelloRequest,
        Val::ClientHello { ver: (3, 3), random: vec![1; 32], sid: vec![2; 3], suites: 2, comps: vec![0, 1], exts: Some(vec![Ext::Curves(vec![22, 3]), Ext::Formats(vec![0, 1]), Ext::SigAlgs(vec![(4, 1), (2, 3)]), Ext::Unknown(0xff01, vec![0])]) },
        Val::ServerHello { ver: (3, 3), random: vec![1; 32], sid: vec![2; 3], comp: 0, exts: Some(vec![Ext::Formats(vec![0]), Ext::Unknown(0xff01, vec![0]), Ext::Curves(vec![22])]) },
        Val::Certificate(vec![vec![1; 3], vec![2; 1], vec![3; 5]]),
        Val::Ske(vec![9; 7]),
        Val::CertReq { types: vec![0, 1], algs: vec![(4, 1)], names: vec![vec![1; 2], vec![4; 1]] },
        Val::Done,
        Val::Cke(vec![65; 3]),
        Val::Finished(vec![5; 12]),
    ];
    let k = c.idx / 256;
    let b0 = kinds[k].bytes();
    let x = (c.idx % 256) as u8;
    let seen = c.idx as u64;
    for i in 0..b0.len() {
        let mut b = b0.clone();
        b[i] = x;
        if full || x < 8 || x >= 248 || (x as usize + i) % 16 == 0 {
            against(c, &b)?;
        }
        // the same with the header made consistent again
        if x < 4 && i >= 4 {
            let mut d = b0[4..].to_vec();
            d.insert(i - 4, x);
            against(c, &wire::hs(b0[0], &d))?;
        }
    }
    if x == 0 {
        for n in 0..b0.len() {
            ensure!(husk(|| Handshake::tls_read(&mut &b0[..n])).is_err(), "the first {} of {} bytes decode: {}", n, b0.len(), hexs(&b0));
            against(c, &b0[..n].to_vec())?;
            if n >= 4 {
                against(c, &wire::hs(b0[0], &b0[4..n]))?;
            }
        }
    }
    let mut b = b0.clone();
    b.push(x);
    ensure!(husk(|| Handshake::tls_read(&mut &b[..])).is_err(), "a message decodes with a trailing byte: {}", hexs(&b));
    against(c, &b)?;
    against(c, &wire::hs(b[0], &b[4..]))?;
    c.sigs(seen);
    Ok(())
}

/// decoding of parts by themselves: what is accepted is what was there
fn part_bytes(c: &mut Case) -> Verdict {
    fn one<T: TlsItem>(c: &mut Case, what: &str, b: &[u8], delimited: bool) -> Verdict {
        let mut cur = Cursor::new(b);
        if let Ok(t) = husk(|| T::tls_read(&mut cur)) {
            let used = cur.position() as usize;
            ensure!(delimited || used == b.len(), "{}: {} bytes ignored in {}", what, b.len() - used, hexs(b));
            ensure!(husk(|| t.tls_size()) == used as u64, "{}: {} bytes decode to an item of {}: {}", what, used, t.tls_size(), hexs(b));
            let mut v = vec![];
            if husk(|| t.tls_write(&mut v)).is_ok() {
                ensure!(v == b[..used], "{}: {} decodes to something that encodes to {}", what, hexs(&b[..used]), hexs(&v));
                c.count("part byte strings accepted", 1);
            } else {
                ensure!(what.contains("CipherSuite") || what.contains("Hello"), "{}: {} is accepted but not encodable", what, hexs(b));
            }
        } else {
            c.count("part byte strings refused", 1);
        }
        Ok(())
    }
    let n = c.rng.size(120);
    let mut b = c.rng.bytes(n);
    if c.rng.chance(2, 3) {
        // plausible lengths
        let v = small(&mut c.rng).body();
        let at = c.rng.below(v.len() + 1);
        b = v[at..].to_vec();
        if c.rng.chance(1, 2) {
            mutate::bytes(&mut c.rng, &mut b);
        }
    }
    macro_rules! all { ($($t:ty: $d:expr),+ $(,)?) => { $( one::<$t>(c, stringify!($t), &b, $d)?; )+ } }
    all!(Random: true, SessionId: true, h::CipherSuiteVec: true, CompressionMethodVec: true, Asn1Cert: true,
        CertificateList: true, EllipticCurveList: true, ECPointFormatList: true, Extension: true,
        SignatureAndHashAlgorithmVec: true, DistinguishedName: true, DistinguishedNameVec: true,
        CertificiateTypeVec: true, CertificateRequest: true, VerifyData: true, ProtocolVersion: true,
        ExtensionVec: true, Option<ExtensionVec>: false, ClientHello: false, ServerHello: false, EcData: true,
        EcParameters: true, ServerEcdhParams: true, EcdheServerKeyExchange: true, DigitallySigned: true,
        Signature: true, Alert: true, ObscureData: false, u16: true, u32: true, u64: true, NamedCurve: true);
    // enumerations: exactly the values listed
    let v = c.rng.u64() as u16;
    let v = if c.rng.chance(1, 2) { v } else { v & 0xff };
    let vb = v.to_be_bytes();
    let x = vb[1];
    macro_rules! is_known { ($t:ty, $b:expr, $k:expr) => {
        let r = husk(|| <$t>::tls_read(&mut &$b[..])).is_ok();
        ensure!(r == $k, "{} {:?} is {}", stringify!($t), $b, if r { "accepted" } else { "refused" });
    } }
    is_known!(AlertLevel, [x], LEVELS.iter().any(|l| l.1 == x));
    // values that later registries define may become known
    if ALERTS.iter().any(|a| a.1 == x) {
        is_known!(AlertDescription, [x], true);
    }
    if CURVES.iter().any(|a| a.1 == v) {
        is_known!(NamedCurve, vb, true);
    }
    c.sig(&b);
    Ok(())
}

/// a stream of messages cut into records
fn cuts(c: &mut Case) -> Verdict {
    let n = c.rng.range(1, 8);
    let vals: Vec<Val> = (0..n).map(|_| if c.rng.chance(1, 6) { gen(&mut c.rng) } else { small(&mut c.rng) }).collect();
    let mut s = vec![];
    let mut ends = vec![];
    // optionally something malformed at some place: what comes before is delivered, then the error
    let bad = if c.rng.chance(1, 3) { Some(c.rng.below(n)) } else { None };
    for (i, v) in vals.iter().enumerate() {
        if Some(i) == bad {
            let x = match c.rng.below(4) {
                0 => wire::hs(14, &[0]),
                1 => wire::hs(*c.rng.pick(&[3, 4, 15, 21, 99, 255]), &c.rng.bytes(5)),
                2 => wire::hs(20, &c.rng.bytes(11)),
                _ => wire::hs(11, &[0, 0, 4, 0, 0, 0, 0]),
            };
            s.extend(x);
        } else {
            s.extend(v.bytes());
        }
        ends.push(s.len());
    }
    let style = c.rng.below(6);
    let mut frags: Vec<Vec<u8>> = vec![];
    let mut pos = 0;
    while pos < s.len() {
        let left = s.len() - pos;
        let k = match style {
            0 => 1,
            1 => 16384,
            2 => c.rng.range(1, 5),
            3 => {
                // exactly at or next to message boundaries
                let e = ends.iter().find(|e| **e > pos).unwrap() - pos;
                (e as i64 + c.rng.range(0, 2) as i64 - 1).max(1) as usize
            }
            4 => 1 + c.rng.size(16383),
            _ => c.rng.range(1, 300),
        };
        // a byte at a time only for short streams
        let k = if left > 3000 && k < 20 { k + 200 } else { k }.min(16384).min(left);
        frags.push(s[pos..pos + k].to_vec());
        pos += k;
    }
    let expect = bad.unwrap_or(n);
    // HandshakeBuffer, polled after every record or only now and then
    let mut hb = HandshakeBuffer::new();
    let mut got = 0;
    let mut fed = 0;
    let mut failed = false;
    let eager = c.rng.chance(1, 2);
    for (i, f) in frags.iter().enumerate() {
        husk(|| hb.add_record(f));
        fed += f.len();
        if !(eager || c.rng.chance(1, 3) || i + 1 == frags.len()) {
            continue;
        }
        loop {
            let ready = got < n && ends[got] <= fed;
            match husk(|| hb.get_message()) {
                Ok(None) => {
                    ensure!(!ready, "message {} of {} is complete after {} bytes but not delivered", got, n, fed);
                    break;
                }
                Ok(Some(m)) => {
                    ensure!(ready, "message {} is delivered {} bytes early", got, ends.get(got).map_or(0, |e| e - fed));
                    ensure!(Some(got) != bad, "a malformed message is delivered");
                    same(&m, &vals[got])?;
                    got += 1;
                }
                Err(e) => {
                    ensure!(ready && Some(got) == bad, "message {} of {}: {:?}", got, n, e);
                    failed = true;
                    break;
                }
            }
        }
        if failed {
            break;
        }
    }
    ensure!(got == expect, "{} of {} messages delivered", got, expect);
    if !failed {
        // nothing is left over
        husk(|| hb.add_record(&wire::hs(14, &[])));
        ensure!(matches!(husk(|| hb.get_message()), Ok(Some(Handshake::server_hello_done(_)))), "bytes are left over after the last message");
    }
    // the record reader
    let mut w = vec![];
    for f in &frags {
        w.extend(wire::rec(22, (3, 3), f));
    }
    let mut rd = TlsReader::new(&w[..]);
    for v in &vals[..expect] {
        match husk(|| rd.read_message()) {
            Ok(Message::HandshakeMessage(m)) => same(&m, v)?,
            Ok(_) => return Err("a handshake record yields something else".into()),
            Err(e) => return Err(format!("a valid message is not read: {:?}", e)),
        }
    }
    match husk(|| rd.read_message()) {
        Ok(_) => return Err("one message too many".into()),
        Err(e) => ensure!(
            (e.kind == TlsErrorKind::IoFailure) == bad.is_none(),
            "after the last message: {:?}",
            e
        ),
    }
    c.count("messages reassembled", expect as u64);
    c.count("records fed", frags.len() as u64);
    c.sigs(frags.len());
    c.sig(&s);
    Ok(())
}

/// every cut of one flight into two records, and into single bytes
fn all_cuts(c: &mut Case) -> Verdict {
    let vals = [
        Val::ServerHello { ver: (3, 3), random: vec![1; 32], sid: vec![2; 3], comp: 0, exts: Some(vec![Ext::Formats(vec![0])]) },
        Val::Certificate(vec![vec![1; 3], vec![2; 9]]),
        Val::Ske(vec![9; 70]),
        Val::Done,
    ];
    let s: Vec<u8> = vals.iter().flat_map(|v| v.bytes()).collect();
    for cut in 1..s.len() {
        let second = c.idx;
        let mut frags = vec![&s[..cut], &s[cut..]];
        if second > 0 {
            let k = (cut + second * 7).min(s.len() - 1);
            if k > cut {
                frags = vec![&s[..cut], &s[cut..k], &s[k..]];
            }
        }
        let mut w = vec![];
        frags.iter().for_each(|f| w.extend(wire::rec(22, (3, 3), f)));
        let mut rd = TlsReader::new(&w[..]);
        for v in &vals {
            match husk(|| rd.read_message()) {
                Ok(Message::HandshakeMessage(m)) => same(&m, v)?,
                Ok(_) => return Err("a handshake record yields something else".into()),
                Err(e) => return Err(format!("cut at {}: {:?}", cut, e)),
            }
        }
        c.count("cuts", 1);
    }
    c.sigs(c.idx);
    Ok(())
}

/// extensions of every type, with data of a few lengths
fn ext_types(c: &mut Case) -> Verdict {
    let from = c.idx * 256;
    for t in from..from + 256 {
        for n in 0..5 {
            let d = c.rng.bytes(n);
            let mut e = vec![(t as u16, d)];
            if c.rng.chance(1, 3) {
                let o = (0x5a00 + c.rng.below(200)) as u16;
                if o != t as u16 {
                    e.insert(c.rng.below(2), (o, vec![1]));
                }
            }
            let mut b = vec![3, 3];
            b.extend(c.rng.bytes(32));
            b.extend([0, 0xcc, 0xa8, 0]);
            b.extend(wire::exts(&e));
            against(c, &wire::hs(2, &b))?;
        }
    }
    c.sigs(from);
    Ok(())
}

fn run(m: &Mon) {
    m.par("value", m.q(4000, 150_000), value);
    m.par("every-length", m.q(2200, 13_000), every_length);
    m.par("part", m.q(4000, 150_000), parts);
    m.par("limit", 18, limits);
    m.par("extreme", 11, extremes);
    m.par("mutated", m.q(40_000, 2_000_000), mutated);
    let full = m.thorough;
    m.par("every-byte", 9 * 256, |c| every_byte(c, full));
    m.par("ext-type", 256, ext_types);
    m.par("part-bytes", m.q(15_000, 600_000), part_bytes);
    m.par("cut", m.q(2500, 80_000), cuts);
    m.par("all-cuts", m.q(4, 30), all_cuts);
    m.require("byte strings accepted", 2000);
    m.require("byte strings refused", 5000);
    m.require("messages reassembled", 2000);
    m.require("sizes out of range refused", 60);
}

fn main() {
    mon::main(
        "C12",
        "an execution encodes/decodes one generated value, decodes one (mutated) byte string, or reassembles one cut stream; distinct by those bytes",
        run,
    );
}
