"""W07: a truncated datagram is never accepted."""
import io
import tempfile

from checks import w05
from lib import wire, work

RULE = ('a case is one proper prefix of a well-formed datagram, given to the '
        'factory, which must raise; distinct by octets; non-trivial when the '
        'prefix is longer than the common header')


def check(run):
    b = wire.Bridge()
    rng = run.rng
    w = work.Workload(run, pads=True)
    with tempfile.TemporaryDirectory() as d:
        truncate(run, b, w, d)
    run.need('prefixes refused', 20000)
    run.need('prefixes cut inside a read refused', 20000)
    run.need('datagrams of big opaque contents truncated', 20)
    run.need('prefixes refused from elsewhere', 5000)
    run.need('PDU classes truncated', len(wire.PDUS) + 2)


def truncate(run, b, w, d):
    for cls in wire.PDUS + wire.ENCODE_ONLY:
        models = [w.grown(cls)]
        for n in (3, 40):
            models += list(w.with_lengths(cls, n))[:run.scale(4, 8)]
        w.setup(cls)
        models += [w.one(cls) for _ in range(run.scale(6, 40))]
        models += [w.one(cls, mode='zeros'), w.one(cls, mode='ones')]
        if work.opaque_kinds(cls):  # contents that are read as a whole
            models += w.blobs(cls, (), run.scale(14, 6))
            for m in models[-14:]:
                run.see('datagrams of big opaque contents truncated')
        for m in models:
            prefixes(run, b, cls, wire.encode(m), d)
        if cls in wire.PDUS:
            for m in w.models(cls, rand=run.scale(60, 600), lengths=(1, 2),
                              literal_budget=run.scale(100, 1000)):
                within(run, b, cls, wire.encode(m))
        run.see('PDU classes truncated')


class Reads(io.BytesIO):
    """Which octets each of the decoder's reads took."""

    def read(self, n=-1):
        at = self.tell()
        out = super().read(n)
        if out:
            self.taken.append((at, self.tell()))
        return out


def within(run, b, cls, data):
    """One cut in each of the decoder's reads, whatever the fields say."""
    if len(data) > 600:
        return
    s = Reads(data)
    s.taken = []
    try:
        b.factory.getPdu(b.In(s))
    except Exception:
        return  # told of the datagram as a whole
    taken = [(a, z) for a, z in s.taken if z > 12]
    if len(taken) > 24:
        taken = taken[-2:] + run.rng.sample(taken, 22)
    for a, z in taken:
        part = data[:run.rng.randrange(a, z)]
        run.case(part)
        try:
            p = b.factory.createPdu(part)
        except Exception:
            run.see('prefixes cut inside a read refused')
            continue
        run.violation(f'{cls}:truncated', f'{len(part)} of the {len(data)} '
                      f'octets of a {cls} were accepted as '
                      f'{type(p).__name__}', {'octets': part, 'whole': data})
        return


class Ends(io.BytesIO):
    """Where the decoder's larger reads end."""

    def read(self, n=-1):
        out = super().read(n)
        if len(out) > 8:
            self.at.append(self.tell())
        return out


def ends(b, cls, data):
    """Cuts close to the ends of the datagram's larger parts."""
    if cls in wire.ENCODE_ONLY:
        return set()
    s = Ends(data)
    s.at = []
    try:
        b.factory.getPdu(b.In(s))
    except Exception:
        pass    # told by the datagram as a whole, below
    return {k - d for k in s.at[:12] + s.at[-4:] for d in range(1, 10)
            if d <= k < len(data) + d}


def prefixes(run, b, cls, data, d):
    cap = 1200 if run.thorough else 260
    if len(data) > 3000:    # slow to decode
        cap = 120 if run.thorough else 56
    cuts = range(len(data))
    if len(data) > cap:
        cuts = sorted(set(run.rng.sample(cuts, cap - 40)) |
                      set(range(20)) | set(range(len(data) - 20, len(data))) |
                    ends(b, cls, data))
    for k in cuts:
        part = data[:k]
        run.case(part if k > 12 else None,
                 {'class': cls, 'kept': k, 'of': len(data)}
                 if run.evaluations % 9973 == 11 else None)
        way = 'bytes'
        if k > 2 and cls not in wire.ENCODE_ONLY and (
                k + 9 > len(data) or run.rng.random() < 0.05):
            way = run.rng.choice(w05.WAYS)
        try:
            p = work.decode(b, cls, part) if way == 'bytes' else \
                w05.entries(b, d, part, way)
        except Exception as e:
            run.see('prefixes refused')
            run.see('prefixes refused from elsewhere', way != 'bytes')
            run.see(f'refused with {type(e).__name__}')
            continue
        run.violation(f'{cls}:truncated', f'{k} of the {len(data)} octets of '
                      f'a {cls} from {way} were accepted as '
                      f'{type(p).__name__}',
                      {'octets': part, 'whole': data})
        return
    try:
        p = work.decode(b, cls, data)
    except Exception as e:
        run.violation(f'{cls}:whole', f'the whole datagram of a {cls} raised '
                      f'{e!r}', {'octets': data})
        return
    if type(p) is not b.cls(cls):
        run.violation(f'{cls}:whole', f'the whole datagram of a {cls} gave '
                      f'{type(p).__name__}', {'octets': data})
