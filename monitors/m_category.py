"""C06: category tables: id, name, table and image lookups agree with the file and with each other."""
import os
import numpy as np
from core import scenario
import gen

from sumo.base.colored_category import ColoredCategory

TREE = os.environ["VERIF_TREE"]


def write(path, rows, eol):
    with open(path, "w", newline="") as f:
        f.write("id,category,is_evaluated,color" + eol)
        for i, n, e, c in rows:
            f.write("%d,%s,%s,%s%s" % (i, n, e, ";".join(map(str, c)), eol))


def agree(ctx, rng, cc, rows):
    n = len(rows)
    ctx.equal(np.asarray(cc.LUT).shape, (n, 3), "lut-shape")
    ctx.equal(np.asarray(cc.LUT), np.array([r[3] for r in rows], dtype=np.uint8), "lut-values")
    last = {r[1]: r[3] for r in rows}
    for k in set(rng.integers(0, n, size=6).tolist()) | {0, n - 1}:
        ctx.equal(tuple(cc.category_id_to_rgb(k)), tuple(rows[k][3]), "id-color", id=k)
        ctx.equal(tuple(cc.category_name_to_rgb(rows[k][1])), tuple(last[rows[k][1]]), "name-color", name=rows[k][1])
    for bad in (-1, n, n + 1, n + int(rng.integers(2, 1000)), -int(rng.integers(2, 1000))):
        ctx.raises(KeyError, lambda: cc.category_id_to_rgb(bad), "unknown-id", "id %d of %d categories" % (bad, n))
    ctx.raises(KeyError, lambda: cc.category_name_to_rgb("no such category"), "unknown-name", "bad name")
    for k in range(4):
        a = rows[int(rng.integers(n))][1]
        bad = gen.pick(rng, [a.upper(), a.lower(), a.title(), a + " ", " " + a, a[:-1], a[1:], a + "s", a.replace("_", " "), ""])
        if bad not in last:
            ctx.raises(KeyError, lambda: cc.category_name_to_rgb(bad), "unknown-name", "%r, like %r" % (bad, a))
            ctx.count("unknown_names")
    h, w = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    im = rng.integers(0, n, size=(h, w)).astype(gen.pick(rng, [np.uint8, np.int64, np.uint16]) if n <= 256 else np.int64)
    if rng.integers(2):
        im = np.asfortranarray(im)
    rgb = cc.convert_to_rgb_im(im)
    ctx.equal((rgb.shape, rgb.dtype), ((h, w, 3), np.dtype(np.uint8)), "image-shape")
    for v in range(h):
        for u in range(w):
            ctx.equal(tuple(int(x) for x in rgb[v, u]), tuple(int(x) for x in cc.category_id_to_rgb(int(im[v, u]))), "image-color",
                      v=v, u=u, id=int(im[v, u]))
    if rng.integers(25) == 0:  # an image of ordinary size
        h, w = int(rng.integers(60, 600)), int(rng.integers(60, 600))
        im = rng.integers(0, n, size=(h, w))
        table = np.array([cc.category_id_to_rgb(i) for i in range(n)]).astype(np.uint8)
        ctx.equal(cc.convert_to_rgb_im(im), table[im], "large-image-colors")
        ctx.count("large_images")
    over = im.astype(np.int64).copy()
    over[int(rng.integers(h)), int(rng.integers(w))] = n + int(rng.integers(0, 5))
    ctx.raises(IndexError, lambda: cc.convert_to_rgb_im(over), "image-unknown-id", "index beyond the table accepted")
    over = im.astype(np.int64).copy()
    over[int(rng.integers(h)), int(rng.integers(w))] = -int(rng.integers(1, n + 5))
    ctx.raises(IndexError, lambda: cc.convert_to_rgb_im(over), "image-negative-id", "negative index accepted")
    ctx.equal(np.asarray(cc.LUT), np.array([r[3] for r in rows], dtype=np.uint8), "lut-stable")


@scenario(quick=1500)
def generated_tables(rng, ctx):
    n = int(rng.integers(1, 40)) if rng.integers(8) else 300
    names = ["cat_%d" % i for i in rng.permutation(n)]
    for k in range(int(gen.pick(rng, [0, 0, 2, 6]))):  # names that are nearly those of others
        a, b = int(rng.integers(n)), int(rng.integers(n))
        new = gen.pick(rng, [names[a].upper(), names[a].title(), names[a] + "s", names[a][:-1], names[a] + "_2", "other " + names[a],
                             names[a].replace("_", " "), names[a].replace("_", "-"), names[a] + " ", "\u00e4" + names[a]])
        if a != b and new and new not in names:
            names[b] = new
    rows = []
    for i in range(n):
        c = tuple(int(x) for x in rng.choice([0, 1, 255, 127, 128, 200, 13], size=3))
        rows.append((i, names[i], bool(rng.integers(2)), c))
    d = ctx.tmp()
    p = os.path.join(d, "c.csv")
    # the first column is documented as ignored: the row number is the id
    shown = rows if rng.integers(2) else [(int(rng.integers(1000)),) + r[1:] for r in rows]
    write(p, shown, gen.pick(rng, ["\n", "\r\n"]))
    ctx.case(repr(shown), sample=dict(rows=shown[:4], n=n))
    order = bool(rng.integers(2))
    cc = ColoredCategory(p)
    if order:
        cc.LUT
    agree(ctx, rng, cc, rows)
    os.unlink(p)
    ctx.raises(IOError, lambda: ColoredCategory(p), "missing-file", "missing file")


@scenario(quick=40)
def shipped_table(rng, ctx):
    """The repository's own table of categories, read independently."""
    p = os.path.join(TREE, "sumo/base/test_data/categories.csv")
    rows = []
    for l in open(p).read().splitlines()[1:]:
        i, n, e, c = l.split(",")
        rows.append((int(i), n, e, tuple(int(x) for x in c.split(";"))))
    ctx.case(int(rng.integers(1 << 40)))
    ctx.check(len(rows) > 10, "shipped-rows")
    agree(ctx, rng, ColoredCategory(p), rows)
