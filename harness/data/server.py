"""OpenSSL (through Python's ssl module) as the peer: TLS 1.2, ECDHE-RSA-CHACHA20-POLY1305, P-256.
Serves connections one after another. Protocol inside: the client sends a 4-byte big-endian length n and
n bytes; the server answers with the bytes xored with 0x5a, then n further bytes counting up. Length
0xffffffff asks the server to close with close_notify."""
import os, socket, ssl, struct, sys

here = os.path.dirname(os.path.abspath(__file__))
def context():
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    ctx.load_cert_chain(os.path.join(here, "cert.pem"), os.path.join(here, "key.pem"))
    return ctx
# nothing but what the client offers
only = context()
only.minimum_version = ssl.TLSVersion.TLSv1_2
only.maximum_version = ssl.TLSVersion.TLSv1_2
only.set_ciphers("ECDHE-RSA-CHACHA20-POLY1305")
only.set_ecdh_curve("prime256v1")
# as it comes, TLS 1.3 included: its random then ends in the downgrade marker (RFC 8446, 4.1.3)
plain = context()
contexts = [only, plain]
ls = socket.create_server(("127.0.0.1", 0))
print(ls.getsockname()[1], flush=True)
turn = 0
while True:
    ctx = contexts[turn % 2]
    turn += 1
    c, _ = ls.accept()
    c.settimeout(60)
    try:
        # an end without close_notify is an error
        t = ctx.wrap_socket(c, server_side=True, suppress_ragged_eofs=False)
        def need(n):
            b = b""
            while len(b) < n:
                x = t.recv(min(65536, n - len(b)))
                if not x:
                    raise EOFError
                b += x
            return b
        while True:
            n, = struct.unpack(">I", need(4))
            if n == 0xffffffff:
                t.unwrap()
                break
            d = need(n)
            t.sendall(bytes(x ^ 0x5a for x in d))
            t.sendall(bytes(i & 255 for i in range(n)))
    except EOFError:
        print("eof", flush=True)
    except ssl.SSLError as e:
        print("ssl", e, flush=True)
    except OSError as e:
        print("os", e, flush=True)
    else:
        print("closed", flush=True)
    finally:
        c.close()
