#!/usr/bin/env python3
"""Independent zip reader and writer for P12/P13 (Python's zipfile).
  zipcheck.py read DIR  : DIR/list has lines 'archive manifest'; manifest: repeated <u32 namelen><name><u32 size><bytes>
  zipcheck.py write DIR SEED N : writes DIR/w<i>.zip and DIR/w<i>.man
Prints one line per problem."""
import io, os, random, struct, sys, zipfile, zlib
def man_read(p):
    b = open(p, "rb").read(); o = 0; out = []
    while o < len(b):
        n, = struct.unpack_from("<I", b, o); o += 4
        name = b[o:o+n].decode("utf-8"); o += n
        n, = struct.unpack_from("<I", b, o); o += 4
        out.append((name, b[o:o+n])); o += n
    return out
def man_write(p, ents):
    with open(p, "wb") as f:
        for name, data in ents:
            e = name.encode("utf-8")
            f.write(struct.pack("<I", len(e)) + e + struct.pack("<I", len(data)) + data)
def read(d):
    for line in open(os.path.join(d, "list")):
        a, m = line.split()
        exp = man_read(m)
        try:
            z = zipfile.ZipFile(a)
        except Exception as e:
            print("%s: not a zip archive for Python: %r" % (a, e)); continue
        got = z.infolist()
        if [x.filename for x in got] != [n for n, _ in exp]:
            print("%s: names %r instead of %r" % (a, [x.filename for x in got], [n for n, _ in exp])); continue
        for i, (n, data) in zip(got, exp):
            try:
                g = z.read(i)
            except Exception as e:
                print("%s: entry %r cannot be read: %r" % (a, n, e)); continue
            if g != data: print("%s: entry %r has other bytes (%d instead of %d)" % (a, n, len(g), len(data)))
            if i.file_size != len(data): print("%s: entry %r size %d instead of %d" % (a, n, i.file_size, len(data)))
            if i.CRC != zlib.crc32(data): print("%s: entry %r checksum" % (a, n))
        z.close()
class NoSeek(io.RawIOBase):
    def __init__(self, f): self.f = f
    def writable(self): return True
    def write(self, b): return self.f.write(b)
    def flush(self): self.f.flush()
def rname(r, k):
    s = "".join(r.choice(["a", "b", "Z", "0", "_", "-", ".", "/", " ", "ä", "ß", "€", "Ω", "日", "语", "\\", "'"]) for _ in range(r.randint(1, 20)))
    return s.strip("/") + "_" + str(k)
def rdata(r):
    m = r.randint(0, 5)
    n = r.choice([0, 0, 1, 2, r.randint(0, 300), r.randint(0, 300), r.randint(1000, 5000), r.randint(60000, 70000) if r.random() < .3 else 77])
    if m == 0: return bytes(r.getrandbits(8) for _ in range(n))
    if m == 1: return bytes([r.getrandbits(8)]) * n
    if m == 2: return (b"PK\x03\x04PK\x05\x06PK\x01\x02" * (n // 12 + 1))[:n]
    if m == 3: return (b"The quick brown fox " * (n // 20 + 1))[:n]
    return bytes(r.choice(b"abcd") for _ in range(n))
def write(d, seed, n):
    r = random.Random(seed)
    for i in range(n):
        p = os.path.join(d, "w%d.zip" % i)
        ents = []
        f = open(p, "wb")
        out = NoSeek(f) if r.random() < .3 else f      # unseekable: sizes follow the data
        with zipfile.ZipFile(out, "w") as z:
            for k in range(r.choice([0, 1, 1, 2, 3, 5, 12, 40])):
                name, data = rname(r, k), rdata(r)
                if r.random() < .1: name, data = name + "/", b""
                zi = zipfile.ZipInfo(name, (r.randint(1980, 2100), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), 2 * r.randint(0, 29)))
                zi.compress_type = r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])
                if r.random() < .3: zi.extra = b"\xfe\xca" + struct.pack("<H", 5) + bytes(r.getrandbits(8) for _ in range(5))
                if r.random() < .3: zi.comment = ("entry comment %d" % r.randint(0, 99)).encode()
                zi.external_attr = r.getrandbits(32)
                z.writestr(zi, data, compresslevel=r.randint(0, 9))
                ents.append((zi.filename, data))
            if r.random() < .3: z.comment = b"archive comment " * r.randint(1, 30)
        f.close()
        man_write(os.path.join(d, "w%d.man" % i), ents)
if sys.argv[1] == "read": read(sys.argv[2])
else: write(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
