#!/usr/bin/env python3
"""Prints pairs of names with equal 32 bit hashes, for vlib/gen.py."""
import binascii, hashlib, random, zlib


def crc32c(b):
    c = 0xffffffff
    for x in b:
        c ^= x
        for _ in range(8):
            c = (c >> 1) ^ (0x82f63b78 if c & 1 else 0)
    return c ^ 0xffffffff


def fold(init, f):
    def h(b):
        v = init
        for x in b:
            v = f(v, x) & 0xffffffff
        return v
    return h


HASHES = {
    "crc32": zlib.crc32, "crc32c": crc32c, "adler32": zlib.adler32,
    "fnv1": fold(0x811c9dc5, lambda v, x: (v * 0x01000193) ^ x), "fnv1a": fold(0x811c9dc5, lambda v, x: (v ^ x) * 0x01000193),
    "times31": fold(0, lambda v, x: v * 31 + x), "djb2": fold(5381, lambda v, x: v * 33 + x), "djb2a": fold(5381, lambda v, x: (v * 33) ^ x),
    "sdbm": fold(0, lambda v, x: v * 65599 + x), "sum": fold(0, lambda v, x: v + x), "xor": fold(0, lambda v, x: v ^ x),
}
for n in ("md5", "sha1", "sha256", "sha512"):
    HASHES[n + "[:4]"] = lambda b, n=n: hashlib.new(n, b).digest()[:4]
    HASHES[n + "[-4:]"] = lambda b, n=n: hashlib.new(n, b).digest()[-4:]

if __name__ == "__main__":
    for name, h in HASHES.items():
        rnd, seen = random.Random(1), {}
        while True:
            s = "".join(rnd.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(7))
            k = h(s.encode())
            if seen.setdefault(k, s) != s:
                print('    ("%s", "%s"),  # %s' % (seen[k], s, name))
                break
