#!/usr/bin/env python3
"""Regenerate the four decimal conversion tables that /repo does not ship.

The definitions are those of /repo/analysis/gen_ryu_helper_tables.py (GE, LT)
and gen_ryu_print_helper_tables.py (P, N), evaluated with exact integers; only
the output format differs: little-endian binary instead of Rust source, and the
GE and LT entries are stored times 4, the scale dec_repr.rs works with.
usage: gen.py OUTDIR
"""
import os
import struct
import sys
from math import ceil, floor, log2, log10
from multiprocessing import Process

P = 237
EMAX = 262143
EMIN = 1 - EMAX
K = 501
T = 384
CHUNK_SIZE = 19
COMPRESSION_RATE = 32
BITS = T - 16 - ceil(log2(10 ** CHUNK_SIZE))
MOD = (10 ** CHUNK_SIZE) << BITS
CHUNK_CUTOFF = ceil(75 / CHUNK_SIZE) + 2
POS_OFF = (512 - P) // COMPRESSION_RATE
NEG_OFF = (P - 1) // COMPRESSION_RATE


def ge(out):
    gmax = floor((EMAX - P - 1) * log10(2)) - 1
    t = 1
    with open(out, "wb") as f:
        for _ in range(gmax + 1):
            h = t.bit_length() - 1 + K
            f.write((((1 << h) // t + 1) << 2).to_bytes(64, "little"))
            t *= 5


def lt(out):
    emin = EMIN - P - 1
    gmax = floor(-emin * log10(5)) - 1
    t = 1
    with open(out, "wb") as f:
        for _ in range(-emin - gmax + 1):
            h = t.bit_length() - K
            q = t >> h if h > 0 else t << -h
            f.write((q << 2).to_bytes(64, "little"))
            t *= 5


class Pow:
    """Powers of 10**19, multiplied up or divided down from the last one."""

    def __init__(self):
        self.cache = {0: 1}

    def get(self, n):
        if n not in self.cache:
            near = min(self.cache, key=lambda k: abs(k - n))
            d = n - near
            base = 10 ** (CHUNK_SIZE * abs(d))
            self.cache[n] = (self.cache[near] * base if d > 0
                             else self.cache[near] // base)
            if len(self.cache) > 24:
                for k in sorted(self.cache, key=lambda k: -abs(k - n))[:12]:
                    del self.cache[k]
        return self.cache[n]


def pos(out):
    n_segments = (EMAX + 1 - P) // COMPRESSION_RATE + 1 - POS_OFF
    pw = Pow()
    with open(out, "wb") as f:
        f.write(struct.pack("<II", n_segments, CHUNK_CUTOFF))
        table = bytearray()
        for s in range(n_segments):
            upper = (s + POS_OFF + 1) * COMPRESSION_RATE - 1
            lower = upper - COMPRESSION_RATE + 1
            shift = lower + BITS
            first = (ceil(log10(2) * (upper + P - 1)) + 1) // CHUNK_SIZE
            f.write(struct.pack("<ii", first + 1, shift))
            for c in range(first, first - CHUNK_CUTOFF, -1):
                t = ((1 << shift) // pw.get(c) + 1) % MOD
                table += t.to_bytes(48, "little")
        f.write(table)


def neg(out):
    n_segments = (-EMIN + 2 * P - 1) // COMPRESSION_RATE + 1 - NEG_OFF
    pw = Pow()
    with open(out, "wb") as f:
        f.write(struct.pack("<II", n_segments, CHUNK_CUTOFF))
        table = bytearray()
        for s in range(n_segments):
            upper = -(s + NEG_OFF) * COMPRESSION_RATE
            lower = upper - COMPRESSION_RATE + 1
            shift = BITS + lower
            sl, sr = max(0, shift), max(0, -shift)
            zero = max(0, -ceil(log10(2) * (upper + P)) // CHUNK_SIZE)
            f.write(struct.pack("<ii", zero, shift))
            for c in range(zero + 1, zero + 1 + CHUNK_CUTOFF):
                t = ((pw.get(c) << sl) >> sr) % MOD
                table += t.to_bytes(48, "little")
        f.write(table)


def main():
    out = sys.argv[1]
    os.makedirs(out, exist_ok=True)
    jobs = [(ge, "pow2_div_pow5.bin"), (lt, "pow5_div_pow2.bin"),
            (pos, "pow2_div_pow10.bin"), (neg, "pow10_div_pow2.bin")]
    procs = []
    for fn, name in jobs:
        p = os.path.join(out, name)
        if os.path.exists(p):
            continue

        def run(fn=fn, p=p):
            fn(p + ".tmp")
            os.replace(p + ".tmp", p)
        pr = Process(target=run)
        pr.start()
        procs.append(pr)
    for pr in procs:
        pr.join()
        if pr.exitcode != 0:
            sys.exit(2)


if __name__ == "__main__":
    main()
