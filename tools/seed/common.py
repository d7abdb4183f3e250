import hashlib, base64, json, os, socket, struct, subprocess, sys, time

def start():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]; s.close()
    p = subprocess.Popen([sys.argv[1], sys.argv[2], str(port)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for _ in range(400):
        try:
            socket.create_connection(("127.0.0.1", port), timeout=5).close()
            return p, port
        except OSError:
            time.sleep(0.05)
    sys.exit(9)

def ask(port, wire, timeout=10, fin=False):
    c = socket.create_connection(("127.0.0.1", port), timeout=timeout)
    c.sendall(wire)
    if fin:
        c.shutdown(socket.SHUT_WR)
    out = b""
    try:
        while True:
            d = c.recv(65536)
            if not d: break
            out += d
    except OSError:
        out += b"<timeout or reset>"
    c.close()
    return out

def upgrade(port):
    c = socket.create_connection(("127.0.0.1", port), timeout=10)
    c.sendall(b"GET /ws HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n")
    b = b""
    while b"\r\n\r\n" not in b:
        b += c.recv(1)
    return c

def frame(op, data, fin=True, mask=b"abcd"):
    n = len(data)
    ln = bytes([128 | n]) if n < 126 else bytes([128 | 126]) + struct.pack(">H", n)
    return bytes([(128 if fin else 0) | op]) + ln + mask + bytes(x ^ mask[i % 4] for i, x in enumerate(data))

def drain(c, t=2):
    c.settimeout(t); b = b""
    try:
        while True:
            d = c.recv(65536)
            if not d: return b
            b += d
    except OSError:
        return b

def verdict(p, ok, what=""):
    p.kill()
    print("DEMO HOLDS" if ok else "DEMO BROKEN %r" % (what,))
    sys.exit(0 if ok else 1)
