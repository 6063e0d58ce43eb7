"""Synthetic JPL kernels: a small DAF/SPK file with type-2 segments."""
import random
import struct

FTPSTR = b'FTPSTR:\r:\n:\r\n:\r\x00:\x81:\x10\xce:ENDFTP'
PAIRS = [(0, 10, 1.2e6), (0, 3, 1.49e8), (3, 399, 4.6e3), (3, 301, 3.8e5),
         (0, 1, 5e7)]


def kernel(key, mjd0, mjd1, days=16, ncoef=5, pad=0, endian='<'):
    """kernel covering two modified Julian days with random coefficients"""
    rng = random.Random(f'spk/{key}')
    init = (mjd0 + 2400000.5 - 2451545.0) * 86400.0
    n = int((mjd1 - mjd0) // days) + 1
    intlen = days * 86400.0
    words = []
    summaries = []
    start = 3 * 128 + 1
    for center, target, scale in PAIRS:
        seg = []
        for i in range(n):
            seg += [init + (i + 0.5) * intlen, intlen / 2]
            for c in range(3):
                for k in range(ncoef):
                    seg.append(scale * rng.uniform(-1, 1) / (4.0 ** k))
        seg += [init, intlen, 2.0 + 3 * ncoef, float(n)]
        summaries.append((init, init + n * intlen, target, center, 1, 2,
                          start + len(words), start + len(words) + len(seg) - 1))
        words += seg
    words += [rng.random() for _ in range(pad)]
    free = start + len(words)
    fmt = endian + '8sII60sIII8s603s28s297s'
    pre = bytearray(603 + 28 + 297)
    # the 500 bytes around the transfer test string
    pre[603:603 + len(FTPSTR)] = FTPSTR
    rec = struct.pack(fmt, b'DAF/SPK ', 2, 6, b'SIMULATED KERNEL'.ljust(60),
                      2, 2, free, b'LTL-IEEE' if endian == '<' else b'BIG-IEEE',
                      bytes(pre[:603]), bytes(pre[603:631]), bytes(pre[631:]))
    summ = struct.pack(endian + 'ddd', 0.0, 0.0, float(len(summaries)))
    for s in summaries:
        summ += struct.pack(endian + 'ddiiiiii', *s)
    names = b''.join(b'SIM'.ljust(40) for _ in summaries)
    data = struct.pack(f'{endian}{len(words)}d', *words)
    out = rec + summ.ljust(1024, b'\0') + names.ljust(1024) + data
    return out + b'\0' * (-len(out) % 1024)
