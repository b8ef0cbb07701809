"""Builders of tar archives and romfs images, with the tree each one holds."""
import struct

# ------------------------------------------------------------------ tar
def tar_header(name, prefix, typ, size, link=b"", uname=b"root", sizefmt="%011o\0", mtime=0):
    h = bytearray(500)
    def put(o, n, b): h[o:o + n] = (b + b"\0" * n)[:n]
    put(0, 100, name); put(100, 8, b"0000644\0"); put(108, 8, b"0001750\0"); put(116, 8, b"0001750\0")
    put(124, 12, (sizefmt % size).encode()); put(136, 12, b"%011o\0" % mtime); put(148, 8, b" " * 8)
    put(156, 1, typ); put(157, 100, link); put(257, 8, b"ustar  \0"); put(265, 32, uname); put(297, 32, uname)
    put(345, 155, prefix)
    put(148, 8, b"%06o\0 " % sum(h))
    return bytes(h) + b"\0" * 12


def tar_member(rng, raw, typ, data):
    """raw: the stored name; split over prefix and name when it has to be, sometimes when it need not"""
    cuts = [i for i, c in enumerate(raw) if c == 47 and 0 < i <= 155 and len(raw) - i - 1 <= 100 and len(raw) - i - 1 > 0]
    prefix, name = b"", raw
    if len(raw) > 100 or (cuts and rng.random() < .15):
        i = rng.choice(cuts); prefix, name = raw[:i], raw[i + 1:]
    pad = b"\0" * (-len(data) % 512)
    return tar_header(name, prefix, typ, len(data), link=b"x" if typ in (b"1", b"2") else b"", sizefmt=rng.choice(["%011o\0", "%011o ", "%07o\0"]), mtime=rng.randrange(1 << 30)) + data + pad


NAMES = ["a", "b", "c", "ab", "a.b", "..x", ".h", "x y", "A", "\xe9", "f.txt", "n" * 31, "-", "~", "%41", "abc", "ba", "\xff", "\x80\x01", "z\xc3\xa9"]


def content(rng, big=False):
    n = rng.choice([0, 0, 1, 2, 3, 10, 15, 16, 17, 31, 64, 200, 511, 512, 513] + ([1023, 1024, 1025, 1500, 3000] if big else []))
    return bytes(rng.randrange(256) for _ in range(n))


def make_tar(rng, big=False, many=0):
    while True:
        try: return _make_tar(rng, big, many)
        except IndexError: pass          # a name that cannot be split over the two fields


def _make_tar(rng, big=False, many=0):
    """-> (bytes, {segments: (isdir, data)})"""
    tree, out = {}, b""
    members = []
    nm = many or rng.choice([1, 2, 3, 4, 6, 9])
    for i in range(nm):
        depth = rng.choice([1, 1, 2, 2, 3])
        segs = [rng.choice(NAMES[:10] if rng.random() < .7 else NAMES) for _ in range(depth)]
        if many: segs.append(f"m{rng.randrange(many)}")
        k = rng.random()
        if k < .12:      # long names
            segs = [c * rng.choice([1, 20, 33, 60]) for c in rng.sample("pqrstu", rng.choice([2, 3, 4]))]
        if k < .05:      # as long as fits either field
            segs = rng.choice([["w" * 100], ["v" * 49, "w" * 50], ["u" * 155, "w" * 90], ["u" * 80, "v" * 74, "w" * 99], ["t" * 100, "f"], ["u" * 77, "v" * 77, "w" * 60]])
        members.append(segs)
    def known(p, d): return tuple(p) not in tree or tree[tuple(p)][0] == d
    def usable(p):     # no file in the way, not a directory already in use
        return all(tuple(p[:i]) not in tree or tree[tuple(p[:i])][0] for i in range(1, len(p))) and (tuple(p) not in tree or not tree[tuple(p)][0]) and not any(q[:len(p)] == tuple(p) and len(q) > len(p) for q in tree)
    lead = rng.choice([b"", b"", b"./", b"/"])
    explicit = rng.random() < .7
    if lead == b"./" and rng.random() < .6: out += tar_member(rng, b"./", b"5", b"")
    for segs in members:
        raw = lambda s: (lead if rng.random() < .9 else b"") + "/".join(s).encode("latin-1")
        if explicit or rng.random() < .3:
            for i in range(1, len(segs) + (rng.random() < .2)):
                p = segs[:i]
                if tuple(p) in tree or not all(tuple(p[:j]) not in tree or tree[tuple(p[:j])][0] for j in range(1, i + 1)): continue
                r = raw(p) + b"/"
                if len(r) > 100 and not any(c == 47 and 0 < j <= 155 and 0 < len(r) - j - 1 <= 100 for j, c in enumerate(r)): continue
                tree[tuple(p)] = (True, b""); out += tar_member(rng, r, b"5", b"")
        if rng.random() < .15:   # members of other kinds are not part of the tree
            t = rng.choice([b"1", b"2", b"3", b"6", b"x", b"g", b"V"])
            out += tar_member(rng, rng.choice([b"other", b"a", b"././@Other", raw(segs)[:90].rstrip(b"/") or b"q"]), t, content(rng) if t in (b"x", b"g") else b"")
        if rng.random() < .1: continue
        if not usable(segs): continue
        r = raw(segs); d = content(rng, big)
        if len(r) > 100 and not any(c == 47 and 0 < j <= 155 and 0 < len(r) - j - 1 <= 100 for j, c in enumerate(r)): continue
        tree[tuple(segs)] = (False, d); out += tar_member(rng, r, b"0", d)
        if rng.random() < .08:   # a later member of the same name replaces the earlier
            d = content(rng, big); tree[tuple(segs)] = (False, d); out += tar_member(rng, raw(segs) if len(segs) == 1 else r, b"0", d)
    if not out:
        tree[("solo",)] = (False, b"one"); out = tar_member(rng, b"solo", b"0", b"one")
    end = rng.choice(["none", "one", "two", "two", "ten", "junk"])
    out += {"none": b"", "one": b"\0" * 512, "two": b"\0" * 1024, "ten": b"\0" * (1024 + (-(len(out) + 1024)) % 10240), "junk": b"\0" * 1024 + bytes(rng.randrange(256) for _ in range(700))}[end]
    return out, tree


# ------------------------------------------------------------------ romfs
def make_romfs(rng, big=False, many=0, links=True):
    """-> (bytes, {segments: (isdir, data)}, names of entries that are neither)"""
    tree, special = {(): (True, b"")}, {}
    kids = {(): []}
    dirs = [()]
    n = many or rng.choice([0, 1, 2, 3, 5, 8, 12])
    for i in range(n):
        par = rng.choice(dirs)
        nm = rng.choice(NAMES[:10] if rng.random() < .7 else NAMES) if not many else f"m{i}"
        if rng.random() < .1: nm = rng.choice("pqr") * rng.choice([15, 16, 29, 30, 31])
        p = par + (nm,)
        if p in tree or sum(map(len, p)) + len(p) > 230: continue
        kids[par].append(p)
        if rng.random() < .3:
            tree[p] = (True, b""); kids[p] = []; dirs.append(p)
        else: tree[p] = (False, content(rng, big))
    files = [p for p in tree if not tree[p][0]]
    linkof = {}
    if links and files:
        for i in range(rng.choice([0, 0, 1, 2])):
            t = rng.choice(files); par = rng.choice(dirs); p = par + (f"ln{i}",)
            kids[par].insert(rng.randint(0, len(kids[par])), p); linkof[p] = t; tree[p] = tree[t]
    for i in range(rng.choice([0, 0, 0, 1])):
        par = rng.choice(dirs); p = par + (f"sp{i}",)
        t = rng.choice([3, 4, 5, 6, 7])
        kids[par].append(p); special[p] = (t, b"tgt" if t == 3 else b"")
    return romfs_from(rng, tree, kids, linkof, special)


def romfs_from(rng, tree, kids=None, linkof={}, special={}):
    if kids is None:
        tree = dict(tree); tree[()] = (True, b""); kids = {d: [p for p in tree if p and p[:-1] == d] for d in tree if tree[d][0]}
        for k in kids.values(): rng.shuffle(k)
    dirs = [d for d in tree if tree[d][0]]
    vol = bytes(rng.choice(b"abcXYZ 09") for _ in range(rng.choice([0, 1, 8, 15, 16, 30, 31])))
    al = lambda x: (x + 15) & ~15
    hl = lambda nm: al(16 + len(nm) + 1)
    # layout: the entries of a directory, then the contents of the directories in it (or depth first)
    pos = al(16 + len(vol) + 1)
    root_pos = pos
    off, ents = {}, []
    deep = rng.random() < .5
    def place(d):
        nonlocal pos
        mine = [(d, "."), (d, "..")] + [(k, None) for k in kids[d]]
        later = []
        for p, dot in mine:
            key = (p, dot); off[key] = pos
            nm = dot if dot else p[-1]
            data = b"" if dot or p in linkof or tree.get(p, (True, b""))[0] else tree[p][1]
            if p in special: data = special[p][1]
            pos = al(pos + hl(nm) + len(data)) if data else pos + hl(nm)
            ents.append((key, d))
            if not dot and p in tree and tree[p][0] and p not in linkof:
                if deep: place(p)
                else: later.append(p)
        for p in later: place(p)
    place(())
    nxt = {}
    for d in dirs:
        seq = [(d, "."), (d, "..")] + [(k, None) for k in kids[d]]
        for a, b in zip(seq, seq[1:]): nxt[a] = off[b]
        nxt[seq[-1]] = 0
    def head_of(d): return root_pos if d == () else off[(d, None)]
    size = pos
    img = bytearray(al(size))
    def word(*w): return struct.pack(">%dI" % len(w), *[x & 0xffffffff for x in w])
    def fix(b, at):      # checksum field at offset at so that the words add up to zero
        s = sum(struct.unpack(">%dI" % (len(b) // 4), bytes(b)))
        b[at:at + 4] = word(-s)
    for (p, dot), d in ents:
        key = (p, dot); nm = (dot if dot else p[-1]).encode("latin-1"); data = b""
        if dot == "." and d == (): typ, spec = 1 | 8, root_pos
        elif dot == ".": typ, spec = 0, head_of(d)
        elif dot == "..": typ, spec = 0, head_of(d[:-1])
        elif p in linkof: typ, spec = 0, off[(linkof[p], None)]
        elif p in special: typ, spec, data = special[p][0], {4: 0x80001, 5: 0x10003}.get(special[p][0], 0), special[p][1]
        elif tree[p][0]: typ, spec = 1 | 8, off[(p, ".")]
        else: typ, spec, data = 2 | rng.choice([0, 8]), 0, tree[p][1]
        h = bytearray(word(nxt[key] | typ, spec, len(data), 0) + nm + b"\0" * (hl(nm) - 16 - len(nm)))
        fix(h, 12)
        o = off[key]; img[o:o + len(h)] = h
        if data: img[o + len(h):o + len(h) + len(data)] = data
    img[0:16] = b"-rom1fs-" + word(size, 0)
    img[16:16 + len(vol)] = vol
    pad = rng.choice([0, 0, 1024, 16])
    if pad: img += b"\0" * (-len(img) % pad)
    if rng.random() < .15 and len(img) >= 512: img += bytes(rng.randrange(256) for _ in range(rng.choice([1, 16, 100])))
    if rng.random() < .3 and len(img) % 1024 == 0: img[8:12] = word(len(img))
    sb = bytearray(img[:512]) + bytearray(-min(512, len(img)) % 4)
    fix(sb, 12); img[12:16] = sb[12:16]
    out = {p: v for p, v in tree.items() if p != ()}
    return bytes(img), out, special


def break_romfs(rng, img):
    """an image that must not mount (or, for what the format does not settle, may do either)"""
    b = bytearray(img)
    def resum():
        n = min(512, len(b)); n -= n % 4
        b[12:16] = b"\0\0\0\0"
        b[12:16] = struct.pack(">I", -sum(struct.unpack(">%dI" % (n // 4), bytes(b[:n]))) & 0xffffffff)
    k = rng.choice(["magic", "magic2", "sum", "bit", "size", "neg", "short", "tiny", "empty", "text"])
    if k == "magic": b[rng.randrange(8)] ^= 1 << rng.randrange(8); resum()
    elif k == "magic2": b[:8] = rng.choice([b"-rom1fs+", b"-ROM1FS-", b"1mor--sf", b"mor-1sf-", b"\0" * 8]); resum()
    elif k == "sum": b[12 + rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif k == "bit": b[rng.randrange(min(512, len(b)) // 4 * 4)] ^= 1 << rng.randrange(8)
    elif k == "size": b[8:12] = struct.pack(">I", len(b) + rng.choice([1, 16, 1000, 1 << 24])); resum()
    elif k == "neg": b[8:12] = struct.pack(">I", rng.choice([0x80000000, 0xffffffff, 0xffffff00])); resum()
    elif k == "short": b = b[:rng.choice([1, 4, 12, 16, 17])]
    elif k == "tiny": b = b[:rng.choice([2, 8, 15])]
    elif k == "empty": b = bytearray()
    elif k == "text": b = bytearray(b"this is not an image at all\n" * 5)
    return bytes(b), k


def cut_tar(rng, img, tree):
    """-> a prefix of img and the tree of the members wholly in it, or None if that is not clear-cut"""
    if rng.random() < .15: n = rng.choice([0, 1, 3, 100, 499, 500, 511, 512])
    else: n = rng.randrange(len(img))
    whole, o, names = [], 0, set()
    while o + 512 <= len(img) and img[o + 257:o + 263] == b"ustar ":
        size = int(img[o + 124:o + 135].split(b"\0")[0].strip(b" "), 8)
        pre, nm = img[o + 345:o + 500].split(b"\0")[0], img[o:o + 100].split(b"\0")[0]
        segs = tuple(x for x in (pre + b"/" + nm).decode("latin-1").split("/") if x not in ("", "."))
        if segs in names: return None      # a later member replaces an earlier one
        if segs in tree: names.add(segs)
        if o + 512 + size <= n and segs in tree and img[o + 156:o + 157] in (b"0", b"5"): whole.append(segs)
        o += 512 + (size + 511) // 512 * 512
    return img[:n], {s: tree[s] for s in whole}
