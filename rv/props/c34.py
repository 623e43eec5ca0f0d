"""C34 transports reach the configured peer with the configured settings."""
import os
import random
import select
import socket
import termios
import tty

from rv import core, net

ID = "C34"
SCALE = 6
RULE = (
    "Pseudo terminals prepared in hostile modes (cooked, echo, software flow control, parity, seven bits, other speeds) "
    "are opened by SerialTransport at every standard speed, closed, reconfigured and opened again: speed and line "
    "settings are read back from the kernel and all 256 byte values pass both ways.  Several TCP listeners (IPv4, other "
    "loopback addresses, IPv6 where available, names) run at once: connect must reach exactly the configured one, once. "
    "Attributes assigned between connections are honoured.  Distinct = distinct (settings, prepared mode)."
)
MIN = {"speeds-read-back": 400, "lines-read-back": 400, "bytes-both-ways": 80000, "reconnected": 150, "tcp-reached": 300,
       "others-quiet": 300, "reassigned": 100, "failed-first": 50}
SPEEDS = {int(n[1:]): getattr(termios, n) for n in dir(termios) if n[0] == "B" and n[1:].isdigit() and int(n[1:]) >= 300}
ALL = bytes(x for x in range(256) if x != 13) + b"\r"


def gen(ctx):
    for i, b in enumerate(sorted(SPEEDS)):
        if i % ctx.nshards == ctx.shard:
            yield {"m": "serial", "speed": b, "seed": ctx.seed * 769 + i}
    for s in ctx.seeds("ser", 32, 600):
        yield {"m": "serial", "speed": 0, "seed": s}
    for s in ctx.seeds("tcp", 32, 600):
        yield {"m": "tcp", "seed": s}


def hostile_mode(rng, fd):
    """Leave the line as another program might have."""
    mode = rng.randrange(6)
    if mode == 0:
        tty.setraw(fd)
    a = termios.tcgetattr(fd)
    if mode in (1, 5):
        a[0] |= termios.ICRNL | termios.IXON | termios.IXOFF | termios.ISTRIP | termios.INLCR
        a[1] |= termios.OPOST | termios.ONLCR
        a[3] |= termios.ICANON | termios.ECHO | termios.ISIG | termios.IEXTEN
    if mode in (2, 5):
        a[2] = a[2] & ~termios.CSIZE | termios.CS7 | termios.PARENB | termios.CSTOPB
    if mode in (3, 5):
        a[0] |= termios.IGNCR | termios.IXON
        a[2] |= termios.CRTSCTS
    a[4] = a[5] = rng.choice(list(SPEEDS.values()))
    termios.tcsetattr(fd, termios.TCSANOW, a)
    return mode


def judge_line(obs, fd, speed, what):
    a = termios.tcgetattr(fd)
    obs.eval()
    obs.expect(a[4] == a[5] == SPEEDS[speed], lambda: f"{what}: the line runs at {[k for k, v in SPEEDS.items() if v in a[4:6]]}, configured is {speed}", "speed")
    obs.count("speeds-read-back")
    bad = []
    if a[2] & termios.CSIZE != termios.CS8:
        bad.append("not eight data bits")
    if a[2] & termios.PARENB:
        bad.append("parity on")
    if a[2] & termios.CSTOPB:
        bad.append("two stop bits")
    if a[2] & termios.CRTSCTS:
        bad.append("hardware flow control")
    for word, names in ((0, "IXON IXOFF ICRNL INLCR IGNCR ISTRIP"), (1, "OPOST"), (3, "ICANON ECHO ISIG IEXTEN")):
        for n in names.split():
            if a[word] & getattr(termios, n):
                bad.append(n)
    obs.expect(not bad, lambda: f"{what}: line settings {bad}", "line")
    obs.count("lines-read-back")


class Pty:
    def __init__(self):
        self.master, self.slave = os.openpty()
        self.path = os.ttyname(self.slave)

    def close(self):
        os.close(self.master)
        os.close(self.slave)

    def both_ways(self, obs, tr, rng, what):
        data = ALL if rng.random() < 0.7 else bytes(rng.sample(ALL[:-1], 255)) + b"\r"
        obs.eval()
        os.write(self.master, data)
        got = tr.recv()
        obs.expect(bytes(got) == data, lambda: f"{what}: the device wrote {data.hex()}, received {bytes(got).hex()}", "bytes")
        tr.send(data)
        out = bytearray()
        while len(out) < len(data) and select.select([self.master], [], [], 20)[0]:
            out += os.read(self.master, 4096)
        extra = os.read(self.master, 4096) if select.select([self.master], [], [], 0)[0] else b""
        obs.expect(bytes(out + extra) == data, lambda: f"{what}: sent {data.hex()}, the device read {bytes(out + extra).hex()}", "bytes")
        obs.count("bytes-both-ways", 2 * len(data))


def serial_case(E, obs, rng, case):
    ptys = [Pty() for _ in range(2)]
    comm = E["exceptions"].CommunicationError
    try:
        speed = case["speed"] or rng.choice(list(SPEEDS))
        at = rng.randrange(2)
        tr = E["transport"].SerialTransport(port=ptys[at].path, baud_rate=speed, timeout=rng.choice((20, 20.5, None)))
        for i in range(3):
            mode = hostile_mode(rng, ptys[at].slave)
            what = f"serial port at {speed}, line left in mode {mode}, connection {i + 1}"
            if rng.random() < 0.3:  # a port that is not there first
                tr.port = f"/nonexistent/{rng.randrange(99)}"
                try:
                    tr.connect()
                except comm:
                    obs.count("failed-first")
                else:
                    obs.fail("connect to a port that does not exist succeeded", "wrong-peer")
                tr.port = ptys[at].path
            tr.connect()
            judge_line(obs, ptys[at].slave, speed, what)
            ptys[at].both_ways(obs, tr, rng, what)
            other = ptys[1 - at]
            obs.expect(not select.select([other.master], [], [], 0)[0], lambda: f"{what}: bytes went to the other port", "wrong-peer")
            tr.disconnect()
            obs.seen("serial", speed, mode, i)
            if i:
                obs.count("reconnected")
            if rng.random() < 0.6:  # settings assigned between two connections
                speed = tr.baud_rate = rng.choice(list(SPEEDS))
                at = rng.randrange(2)
                tr.port = ptys[at].path
                obs.count("reassigned")
    finally:
        for p in ptys:
            p.close()
    obs.sample({"serial": speed}, 2)


def listen(host, port=0, backlog=8):
    family = socket.AF_INET6 if ":" in host else socket.AF_INET
    s = net.RealSocket(family, socket.SOCK_STREAM)
    try:
        s.bind((host, port))
    except OSError:
        s.close()
        return None
    if backlog:
        s.listen(backlog)
    s.settimeout(20)
    return s


def tcp_case(E, obs, rng, case):
    places = []
    held = []  # ports nobody else may get, on which nobody listens
    for host, called in (("127.0.0.1", "127.0.0.1"), ("127.0.0.1", "localhost"), ("127.0.0.2", "127.0.0.2"), ("127.9.8.7", "127.9.8.7"), ("::1", "::1")):
        s = listen(host)
        if s and called == "localhost":  # the name may stand for ::1 too
            six = listen("::1", s.getsockname()[1], 0)
            if six is None and socket.has_ipv6 and os.path.exists("/proc/net/if_inet6") and open("/proc/net/if_inet6").read(1):
                s.close()
                continue
            held.append(six)
        if s:
            places.append((called, s.getsockname()[1], s))
            if host == "127.0.0.2":  # the same port at another address
                t = listen("127.0.0.3", s.getsockname()[1])
                if t:
                    places.append(("127.0.0.3", s.getsockname()[1], t))
    comm = E["exceptions"].CommunicationError
    try:
        tr = None
        for i in range(5):
            called, port, server = rng.choice(places)
            if tr is None or rng.random() < 0.3:
                tr = E["transport"].BlockingTcpTransport(host=called, port=port, timeout=rng.choice((20, 15.5, None)))
            else:
                tr.host, tr.port = called, port
                obs.count("reassigned")
            what = f"connection {i + 1} to {called}:{port}"
            obs.eval()
            obs.expect(tuple(tr.address) == (called, port), lambda: f"{what}: address is {tr.address}", "wrong-peer")
            if rng.random() < 0.3:  # nobody listens there
                free = listen("127.0.0.1", 0, 0)
                held.append(free)
                tr.host, tr.port = "127.0.0.1", free.getsockname()[1]
                try:
                    tr.connect()
                except comm:
                    obs.count("failed-first")
                else:
                    obs.fail(f"connect to port {tr.port}, where nobody listens, succeeded", "wrong-peer")
                tr.host, tr.port = called, port
            tr.connect()
            ready = select.select([s for _, _, s in places], [], [], 20)[0]
            obs.expect(ready == [server], lambda: f"{what} reached {[s.getsockname() for s in ready]}", "wrong-peer")
            fd, _ = server._accept()
            conn = net.RealSocket(fileno=fd)
            conn.settimeout(20)
            data = bytes(rng.sample(ALL[:-1], 60)) + b"\r"
            tr.send(data)
            got = b""
            while len(got) < len(data):
                x = conn.recv(len(data) - len(got))
                if not x:
                    break
                got += x
            conn.sendall(data[::-1][1:] + b"\r")
            obs.expect(got == data and tr.recv() == data[::-1][1:] + b"\r", lambda: f"{what}: bytes differ", "bytes")
            again = select.select([s for _, _, s in places], [], [], 0)[0]
            obs.expect(not again, lambda: f"{what}: more connections were made, to {[s.getsockname() for s in again]}", "wrong-peer")
            obs.count("others-quiet")
            tr.disconnect()
            conn.close()
            obs.count("tcp-reached")
            obs.seen("tcp", called, port, i)
    finally:
        for s in [s for _, _, s in places] + [s for s in held if s]:
            s.close()


def run(case, obs):
    E = core.load_elgas()
    rng = random.Random(case["seed"])
    (serial_case if case["m"] == "serial" else tcp_case)(E, obs, rng, case)
