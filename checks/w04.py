"""W04: a decoded PDU re-encodes to the octets it came from."""
from lib import wire, work
from checks.w01 import strip
from checks.w08 import rejected

RULE = ('a case is one datagram decoded by the factory and encoded again, '
        'compared octet by octet (paddings excepted), or, for datagrams made '
        'of arbitrary octets, required to be a fixed point after the first '
        're-encoding; distinct by octets; non-trivial when octets after the '
        'header are non-zero')


def check(run):
    b = wire.Bridge(share=True)
    rng = run.rng
    w = work.Workload(run, pads=True)
    for cls in wire.PDUS + wire.ENCODE_ONLY:
        for m in w.models(cls, sweep=run.scale(64, 256),
                          rand=run.scale(120, 2500),
                          lengths=run.scale((0, 1, 2, 9, 130, 255),
                                            (0, 1, 2, 3, 9, 40, 127, 128, 129,
                                             254, 255, 256, 600)),
                          literal_budget=run.scale(250, 1500)):
            ref = wire.encode_full(m)
            data = wire.noisy(ref, rng) if rng.random() < 0.5 else bytes(ref.b)
            run.case(data if work.nonzero(data) else None,
                     {'class': cls, 'octets': data[:48].hex()}
                     if run.evaluations % 3001 == 7 else None)
            try:
                got = work.encode(b, work.decode(b, cls, data))
            except Exception as e:
                run.violation(f'{cls}:raises', f'relaying a {cls} raised {e!r}',
                              {'octets': data})
                continue
            d = wire.mask_diff(ref, got)
            run.see('datagrams relayed')
            run.see('octets compared', len(got))
            if d:
                run.violation(f'{cls}:{strip(d[1])}', f'relayed {cls}: octet '
                              f'{d[0]} ({d[1]}) was {d[2]:#x}, is {d[3]:#x}',
                              {'octets': data, 'got': got})
        arbitrary(run, b, cls, run.scale(60, 1500))
    signal_bits(run, b)
    run.need('datagrams relayed', 5000)
    run.need('arbitrary datagrams accepted', 500)


def arbitrary(run, b, cls, n):
    """Octets no encoder chose: whatever is accepted must settle at once."""
    rng = run.rng
    t = wire.TYPE_OF_CLASS[cls]
    for _ in range(n):
        size = rng.choice([64, 160, 300, 600])
        c = rng.random()
        if c < 0.3:
            body = rng.randbytes(size)
        elif c < 0.7:  # mostly zero, so that counts stay small
            body = bytearray(size)
            for _ in range(rng.randint(1, 40)):
                body[rng.randrange(size)] = rng.randrange(256)
        else:
            body = bytes(rng.choice([0, 0, 0, 1, 255, 128]) for _ in range(size))
        data = bytes([7, 1, t, wire.family(cls)]) + bytes(body)
        try:
            p = work.decode(b, cls, data)
        except Exception as e:
            run.see('arbitrary datagrams rejected')
            continue
        try:
            one = work.encode(b, p)
        except Exception as e:
            run.violation(f'{cls}:arbitrary-encode', f'a decoded {cls} cannot '
                          f'be encoded: {e!r}', {'octets': data})
            continue
        try:
            two = work.encode(b, work.decode(b, cls, one))
        except Exception as e:
            run.violation(f'{cls}:arbitrary-decode', f'the re-encoding of an '
                          f'accepted {cls} is not accepted: {e!r}',
                          {'octets': data, 'reencoded': one})
            continue
        run.see('arbitrary datagrams accepted')
        run.case(('a', data) if any(body) else None)
        if one != two:
            run.violation(f'{cls}:arbitrary-fixpoint', f'{cls}: relaying twice '
                          'gives other octets than relaying once',
                          {'octets': data, 'once': one, 'twice': two})


def signal_bits(run, b):
    for cls in ('SignalPdu', 'IntercomSignalPdu'):
        m = wire.Gen(run.rng).case(cls)
        m['data'] = [1, 2, 3]
        m['protocolFamily'] = 4
        e = wire.encode_full(m)
        at = e.counts[0][0]
        for bits in (17, 20, 23):
            data = bytearray(e.b)
            data[at:at + 2] = bits.to_bytes(2, 'big')
            try:
                got = work.encode(b, work.decode(b, cls, bytes(data)))
            except Exception as ex:
                got = repr(ex).encode()
            run.case(('bits', cls, bits))
            if got != bytes(data):
                run.violation(f'{cls}.dataLength-not-whole-octets',
                              f'{cls}: data length {bits} bits is relayed as '
                              f'{got[at:at + 2].hex()}')
