"""Independent ISO BMFF builder and strict parser (does not use any code of the repository)."""
import struct

CONTAINERS = {b"moov", b"trak", b"mdia", b"minf", b"stbl", b"dinf", b"mvex", b"moof", b"traf", b"edts", b"udta_"}


def u16(x): return struct.pack(">H", x)
def u32(x): return struct.pack(">I", x)
def s32(x): return struct.pack(">i", x)
def u64(x): return struct.pack(">Q", x)
def box(typ, *parts):
    body = b"".join(parts)
    return u32(8 + len(body)) + typ + body
def full(typ, ver, flags, *parts):
    return box(typ, struct.pack(">I", (ver << 24) | flags), *parts)


class Malformed(Exception):
    pass


class Box(object):
    __slots__ = ("typ", "off", "size", "data", "kids")
    def __init__(self, typ, off, size, data, kids):
        self.typ, self.off, self.size, self.data, self.kids = typ, off, size, data, kids
    @property
    def body(self): return self.data[8:]
    @property
    def ver(self): return self.data[8]
    @property
    def flags(self): return struct.unpack(">I", self.data[8:12])[0] & 0xffffff
    def find(self, typ): return [k for k in self.kids if k.typ == typ]
    def one(self, typ):
        k = self.find(typ)
        if len(k) != 1:
            raise Malformed("%d %r boxes" % (len(k), typ))
        return k[0]


def parse(data, base=0, containers=CONTAINERS):
    "Parse data into boxes; sizes must tile the data exactly."
    out, pos = [], 0
    while pos < len(data):
        if len(data) - pos < 8:
            raise Malformed("trailing bytes")
        size, typ = struct.unpack(">I4s", data[pos:pos + 8])
        if size < 8 or pos + size > len(data):
            raise Malformed("bad size %d of %r at %d" % (size, typ, base + pos))
        d = data[pos:pos + size]
        kids = parse(d[8:], base + pos + 8, containers) if typ in containers else []
        out.append(Box(typ, base + pos, size, d, kids))
        pos += size
    return out


def r32(d, o): return struct.unpack(">I", d[o:o + 4])[0]
def r64(d, o): return struct.unpack(">Q", d[o:o + 8])[0]
def rs32(d, o): return struct.unpack(">i", d[o:o + 4])[0]


def trex_defaults(init_bytes):
    "track_id -> (duration, size, flags)"
    res = {}
    for b in parse(init_bytes):
        if b.typ == b"moov":
            for m in b.find(b"mvex"):
                for t in m.find(b"trex"):
                    d = t.data
                    res[r32(d, 12)] = (r32(d, 20), r32(d, 24), r32(d, 28))
    return res


def parse_tfhd(b):
    d, f, p = b.data, b.flags, 16
    r = {"track": r32(d, 12), "base": None, "dur": None, "size": None, "flags": None}
    if f & 1:
        r["base"] = r64(d, p); p += 8
    if f & 2:
        p += 4
    if f & 8:
        r["dur"] = r32(d, p); p += 4
    if f & 0x10:
        r["size"] = r32(d, p); p += 4
    if f & 0x20:
        r["flags"] = r32(d, p); p += 4
    if p != b.size:
        raise Malformed("tfhd size")
    return r


def parse_trun(b):
    d, f, p = b.data, b.flags, 16
    n = r32(d, 12)
    r = {"off": None, "first_flags": None, "samples": []}
    if f & 1:
        r["off"] = rs32(d, p); p += 4
    if f & 4:
        r["first_flags"] = r32(d, p); p += 4
    for _ in range(n):
        s = {"dur": None, "size": None, "flags": None, "cto": 0}
        if f & 0x100:
            s["dur"] = r32(d, p); p += 4
        if f & 0x200:
            s["size"] = r32(d, p); p += 4
        if f & 0x400:
            s["flags"] = r32(d, p); p += 4
        if f & 0x800:
            s["cto"] = rs32(d, p) if b.ver else r32(d, p); p += 4
        r["samples"].append(s)
    if p != b.size:
        raise Malformed("trun size")
    return r


def fragment(data, trex=None):
    """Strictly decode a (multi-track) fragment: list of dicts
    {seq, tracks: [{track, tfdt, tver, samples:[(bytes,dur,flags,cto)], aux}], top: [types]}"""
    boxes = parse(data)
    top = [b.typ.decode("latin1") for b in boxes]
    trex = trex or {}
    moofs = [b for b in boxes if b.typ == b"moof"]
    frs = []
    for moof in moofs:
        idx = boxes.index(moof)
        if idx + 1 >= len(boxes) or boxes[idx + 1].typ != b"mdat":
            raise Malformed("moof not followed by mdat")
        mdat = boxes[idx + 1]
        seq = r32(moof.one(b"mfhd").data, 12)
        tracks = []
        used = []
        for traf in moof.find(b"traf"):
            hd = parse_tfhd(traf.one(b"tfhd"))
            td = traf.one(b"tfdt")
            tver = td.ver
            if td.size != (20 if tver else 16):
                raise Malformed("tfdt size")
            tfdt = r64(td.data, 12) if tver else r32(td.data, 12)
            defs = trex.get(hd["track"], (None, None, None))
            samples = []
            base = hd["base"] if hd["base"] is not None else moof.off
            cur = base
            for tr in traf.find(b"trun"):
                t = parse_trun(tr)
                if t["off"] is not None:
                    cur = base + t["off"]
                for i, s in enumerate(t["samples"]):
                    size = s["size"] if s["size"] is not None else (hd["size"] if hd["size"] is not None else defs[1])
                    dur = s["dur"] if s["dur"] is not None else (hd["dur"] if hd["dur"] is not None else defs[0])
                    fl = s["flags"]
                    if fl is None and i == 0 and t["first_flags"] is not None:
                        fl = t["first_flags"]
                    if fl is None:
                        fl = hd["flags"] if hd["flags"] is not None else defs[2]
                    if size is None or dur is None or fl is None:
                        raise Malformed("sample defaults missing")
                    if cur < mdat.off + 8 or cur + size > mdat.off + mdat.size:
                        raise Malformed("sample outside mdat")
                    samples.append((data[cur:cur + size], dur, fl, s["cto"]))
                    used.append((cur, cur + size))
                    cur += size
            aux = None
            for saio in traf.find(b"saio"):
                p = 12 + (8 if saio.flags & 1 else 0)
                cnt = r32(saio.data, p); p += 4
                offs = []
                for _ in range(cnt):
                    if saio.ver == 0:
                        offs.append(r32(saio.data, p)); p += 4
                    else:
                        offs.append(r64(saio.data, p)); p += 8
                if p != saio.size:
                    raise Malformed("saio size")
                aux = [data[moof.off + o:moof.off + o + 8] for o in offs]
            others = [(k.typ.decode("latin1"), k.data) for k in traf.kids
                      if k.typ not in (b"tfdt", b"trun", b"saio", b"tfhd")]
            tracks.append({"track": hd["track"], "tfdt": tfdt, "tver": tver, "samples": samples, "aux": aux,
                           "others": others})
        mdat_covered = sum(b - a for a, b in set(used))
        frs.append({"seq": seq, "tracks": tracks, "mdat_size": mdat.size - 8, "covered": mdat_covered,
                    "moof_off": moof.off, "moof_size": moof.size, "mdat_total": mdat.size})
    return {"top": top, "boxes": boxes, "frags": frs}


def parse_sidx(b):
    d = b.data
    v = b.ver
    r = {"ver": v, "ref": r32(d, 12), "ts": r32(d, 16)}
    p = 20
    if v == 0:
        r["ept"] = r32(d, p); r["first"] = r32(d, p + 4); p += 8
    else:
        r["ept"] = r64(d, p); r["first"] = r64(d, p + 8); p += 16
    cnt = r32(d, p) & 0xffff
    p += 4
    r["entries"] = []
    for _ in range(cnt):
        x = r32(d, p)
        r["entries"].append({"type": x >> 31, "size": x & 0x7fffffff, "dur": r32(d, p + 4), "sap": r32(d, p + 8)})
        p += 12
    if p != b.size:
        raise Malformed("sidx size")
    return r


def parse_emsg(b):
    d = b.data
    if b.ver != 0:
        raise Malformed("emsg version")
    p = 12
    e = d.index(b"\0", p); scheme = d[p:e].decode("latin1"); p = e + 1
    e = d.index(b"\0", p); value = d[p:e].decode("latin1"); p = e + 1
    if p + 16 > len(d):
        raise Malformed("emsg size")
    return {"scheme": scheme, "value": value, "ts": r32(d, p), "delta": r32(d, p + 4), "dur": r32(d, p + 8),
            "id": r32(d, p + 12), "msg": d[p + 16:].decode("latin1")}


def brands(b):
    d = b.body
    if len(d) % 4:
        raise Malformed("styp size")
    # major brand, minor version, compatible
    return [d[0:4].decode("latin1"), d[4:8].hex()] + [d[i:i + 4].decode("latin1") for i in range(8, len(d), 4)]


def media_timescale(init_bytes):
    "timescale of the (first) track"
    for b in parse(init_bytes):
        if b.typ == b"moov":
            d = b.one(b"trak").one(b"mdia").one(b"mdhd").data
            return r32(d, 28) if d[8] else r32(d, 20)
