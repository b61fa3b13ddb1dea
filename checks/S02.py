"""Dataset readers: generated archives read back field by field; hostile content."""
import csv
import datetime as dt
import io
import json
import os
import shutil
import tempfile
import zipfile
from contextlib import contextmanager

import numpy as np
import pandas as pd

from vlib import gen

PROPERTY = "S02"
EXT = None
RULE = ("one case = one generated archive of one dataset read by the real manager and compared with the generated records, field by field and in order, or one "
        "damaged archive that must be refused; non-trivial when records were compared or a refusal observed; distinct by dataset, layout and content digest")
ASSUMPTIONS = ["text contains no line breaks, and not the separator of its file; a MovieLens title column holds at least one non-numeric title",
               "rows have the number of fields the format prescribes", "the python flag -O is not used"]
TRICKY = ["NA", "N/A", "None", "null", "nan", "NaN", "#N/A", "n/a", "", "True", "007", "1e5", "-0", "inf", "0x10", "12:30", "a,b", "it's", '"', '""', '"quoted"', 'say "hi"',
          '"open', 'close"', " lead", "trail ", "a  b", "#hash", "back\\slash", "\\N", "\\t", "%s", "{}", "<b>&amp;</b>", "'", "it''s", ";", "=1+1", "(1999)", "x (1999)", "$5"]
UNI = ["é", "naïve", "日本語", "Ω", "“smart”", "\u00a0", "😀", "\u200b", "e\u0301", "–"]


@contextmanager
def archive(case, files, corrupt=None):
    """A zip file with the given members, in a scratch directory."""
    d = tempfile.mkdtemp(prefix="s02-")
    try:
        p = os.path.join(d, "a.zip")
        with zipfile.ZipFile(p, "w") as z:
            for n, b in files:
                z.writestr(n, b, compress_type=zipfile.ZIP_STORED if corrupt or case.rng.random() < 0.5 else zipfile.ZIP_DEFLATED)
        if corrupt:
            raw = bytearray(open(p, "rb").read())
            with zipfile.ZipFile(p) as z:
                zi = z.getinfo(corrupt)
            start = zi.header_offset + 30 + len(zi.filename.encode())
            raw[start + int(case.rng.integers(0, zi.file_size))] ^= 1
            open(p, "wb").write(bytes(raw))
        yield p
    finally:
        shutil.rmtree(d, ignore_errors=True)


def text(rng, ban="", latin=False, empty=True):
    r = rng.random()
    if r < 0.45:
        s = gen.pick(rng, TRICKY)
    elif r < 0.6:
        s = gen.pick(rng, TRICKY) + " " + gen.pick(rng, TRICKY)
    elif r < 0.8:
        s = gen.pick(rng, UNI[:2] + ["\xdc\xfe", "\x91smart\x92"] if latin else UNI) + gen.pick(rng, ["", " x", "NA"])
    else:
        s = "".join(chr(int(c)) for c in rng.integers(32, 127, int(rng.integers(1, 30))))
    for b in ban:
        s = s.replace(b, "_")
    return s if (s or empty) else "x"


def cell(x):
    """A cell as a plain value; missing becomes None."""
    if x is None or (isinstance(x, float) and np.isnan(x)) or x is pd.NaT or x is pd.NA:
        return None
    if isinstance(x, np.generic):
        return x.item()
    return x


def compare(case, df, want, columns, mech, what, index=None):
    if index is not None:
        case.check(df.index.name == index, mech + "-index", f"{df.index.name} {what}")
        df = df.reset_index()
        columns = [index] + columns
    case.check(sorted(map(str, df.columns)) == sorted(columns), mech + "-columns", f"{list(df.columns)} {what}")
    case.check(len(df) == len(want), mech + "-record-count", f"{len(df)} records, expected {len(want)} {what}")
    for j, c in enumerate(columns):
        for i, (g, w) in enumerate(zip(df[c].tolist(), (r[j] for r in want))):
            g = cell(g)
            if isinstance(w, dt.datetime):
                g = g.to_pydatetime() if isinstance(g, pd.Timestamp) else g
            same = g == w and isinstance(g, str) == isinstance(w, str) and isinstance(g, bool) == isinstance(w, bool)
            if not same:
                case.fail(mech, f"record {i} field {c}: {g!r}, expected {w!r} {what}")
        case.count("fields_compared", len(want))
    case.count("records_compared", len(want))


def stamp(rng):
    return int(gen.pick(rng, [0, 1, 86399, 978300760, 2 ** 31 - 1, 2 ** 31, int(rng.integers(0, 1_900_000_000))]))


def utc(s):
    return dt.datetime(1970, 1, 1) + dt.timedelta(seconds=s)


def size(rng):
    return int(gen.pick(rng, [1, 2, 7, 40]))


def eol(rng):
    return gen.pick(rng, ["\n", "\n", "\n", "\r\n"])


def maybe_last(rng, s, e):
    return s[:-len(e)] if rng.random() < 0.3 else s


# ---------------------------------------------------------------- MovieLens

def ids(rng, n, unique=True):
    hi = int(gen.pick(rng, [50, 4000, 10 ** 9]))
    if unique:
        return [int(x) for x in rng.choice(max(hi, n), n, replace=False)] if hi < 10 ** 6 else sorted({int(x) for x in rng.integers(1, hi, n)}, key=lambda v: v % 7919)
    return [int(x) for x in rng.integers(0, hi, n)]


def ml_ratings(case):
    import irspack.dataset as ds
    rng = case.rng
    which = gen.pick(rng, ["100k", "1m", "20m"])
    n, e = size(rng), eol(rng)
    rows = [(a, b, float(gen.pick(rng, [0.5, 3.5, 5.0])) if which == "20m" else int(rng.integers(1, 6)), stamp(rng))
            for a, b in zip(ids(rng, n, False), ids(rng, n, False))]
    sep = {"100k": "\t", "1m": "::", "20m": ","}[which]
    body = "".join(sep.join(map(str, r)) + e for r in rows)
    if which == "20m":
        body = "userId,movieId,rating,timestamp" + e + body
    cls, name = {"100k": (ds.MovieLens100KDataManager, "ml-100k/u.data"), "1m": (ds.MovieLens1MDataManager, "ml-1m/ratings.dat"),
                 "20m": (ds.MovieLens20MDataManager, "ml-20m/ratings.csv")}[which]
    with archive(case, [("other/" + name, b"junk"), (name, maybe_last(rng, body, e).encode())]) as p:
        m = cls(p)
        for _ in range(2):
            compare(case, m.read_interaction(), [(a, b, r, utc(t)) for a, b, r, t in rows], ["userId", "movieId", "rating", "timestamp"], f"ml{which}-rating", f"{n} rows")
        m.zf.close()
    case.seen(which, n, hash(body), dataset=which, rows=n)


ZIPS = ["00123", "70072", "V3N4P", "9999999", "0", "00000", "T8H1N", "02154-1234"]


def ml_users(case):
    import irspack.dataset as ds
    rng = case.rng
    n, e = size(rng), eol(rng)
    us = ids(rng, n)
    n = len(us)
    if rng.random() < 0.5:
        rows = [(u, int(rng.integers(7, 80)), gen.pick(rng, ["M", "F"]), gen.pick(rng, ["technician", "none", "None", "other", text(rng, "|", empty=False)]), gen.pick(rng, ZIPS)) for u in us]
        rows[0] = rows[0][:3] + ("writer",) + rows[0][4:]
        cls, name, sep, cols = ds.MovieLens100KDataManager, "ml-100k/u.user", "|", ["age", "gender", "occupation", "zipcode"]
    else:
        rows = [(u, gen.pick(rng, ["M", "F"]), int(gen.pick(rng, [1, 18, 25, 56])), int(rng.integers(0, 21)), gen.pick(rng, ZIPS)) for u in us]
        cls, name, sep, cols = ds.MovieLens1MDataManager, "ml-1m/users.dat", "::", ["gender", "age", "occupation", "zipcode"]
    if not all(str(r[3]).isprintable() and str(r[3]).isascii() for r in rows):
        rows = [r[:3] + (r[3].encode("ascii", "ignore").decode() or "x",) + r[4:] if isinstance(r[3], str) else r for r in rows]
    body = "".join(sep.join(map(str, r)) + e for r in rows)
    with archive(case, [(name, maybe_last(rng, body, e).encode())]) as p:
        m = cls(p)
        compare(case, m.read_user_info(), rows, cols, "ml-user", f"{cls.__name__} {n} rows", index="userId")
        m.zf.close()
    case.seen(cls.__name__, n, hash(body), dataset=cls.__name__, rows=n)


def ml_items(case):
    import irspack.dataset as ds
    rng = case.rng
    n, e = size(rng), eol(rng)
    us = ids(rng, n)
    n = len(us)
    if rng.random() < 0.5:
        genres = ["unknown", "Action", "Children's", "Film-Noir", "Sci-Fi", "War|"][:int(rng.integers(1, 6))]
        rows, gs = [], []
        for k, u in enumerate(us):
            t = "Toy Story (1995)" if k == 0 else text(rng, "|", latin=True)
            d = dt.datetime(int(rng.integers(1922, 1999)), int(rng.integers(1, 13)), int(rng.integers(1, 29))) if rng.random() < 0.8 else None
            url = "http://us.imdb.com/M/title-exact?" + text(rng, "|", latin=True)
            f = [int(x) for x in rng.integers(0, 2, len(genres))]
            if k == 0:
                f[0] = 1
            rows.append((u, t or None, d, None, url)), gs.append(f)
        body = "".join("|".join([str(u), t or "", d.strftime("%d-%b-%Y") if d else "", "", url] + list(map(str, f))) + e for (u, t, d, _, url), f in zip(rows, gs))
        gbody = "".join(f"{g}|{i}{e}" for i, g in enumerate(genres)) + gen.pick(rng, ["", e])
        with archive(case, [("ml-100k/u.item", maybe_last(rng, body, e).encode("latin-1")), ("ml-100k/u.genre", gbody.encode())]) as p:
            m = ds.MovieLens100KDataManager(p)
            items, g = m.read_item_info()
            compare(case, items, rows, ["title", "release_date", "video_release_date", "URL"], "ml100k-item", f"{n} rows", index="movieId")
            want = [(r[0], genres[j]) for r, f in zip(rows, gs) for j, x in enumerate(f) if x]
            compare(case, g, want, ["movieId", "genre"], "ml100k-genre", f"{n} rows {genres}")
            m.zf.close()
        name = "100k"
    else:
        rows = []
        for k, u in enumerate(us):
            y = int(gen.pick(rng, [1919, 1995, 2000]))
            t = gen.pick(rng, [text(rng, latin=True), text(rng, latin=True) + f" ({y})", f"({y}) (a) ({y - 1})", f"{text(rng, latin=True)} ({y}) x"]) if k else "Toy Story (1995)"
            while "::" in t:
                t = t.replace("::", ":")
            t = t.rstrip(":").lstrip(":")
            rows.append((u, t, gen.pick(rng, ["Comedy", "Action|Sci-Fi", "NA", "Children's|Comedy", "None"])))
        import re
        yr = []
        for _, t, _ in rows:
            q = re.match(r"^.*\((\d+)\)\s*$", t)
            yr.append(float(q.group(1)) if q else None)
        body = "".join("::".join(map(str, r)) + e for r in rows)
        with archive(case, [("ml-1m/movies.dat", maybe_last(rng, body, e).encode("latin-1"))]) as p:
            m = ds.MovieLens1MDataManager(p)
            compare(case, m.read_item_info(), [(u, t or None, g, y) for (u, t, g), y in zip(rows, yr)], ["title", "genres", "release_year"], "ml1m-item", f"{n} rows", index="movieId")
            m.zf.close()
        name = "1m"
    case.seen(name, n, hash(body), dataset=name, rows=n)


# ---------------------------------------------------------------- MIND

def mind_time(rng, t):
    h = t.hour % 12 or 12
    f = (lambda v: f"{v:02d}") if rng.random() < 0.3 else str
    return f"{f(t.month)}/{f(t.day)}/{t.year} {f(h)}:{t.minute:02d}:{t.second:02d} {'AM' if t.hour < 12 else 'PM'}"


def entities(rng):
    return [{"Label": text(rng, "\t"), "Type": "P", "WikidataId": f"Q{int(rng.integers(9999))}", "Confidence": float(rng.random()),
             "OccurrenceOffsets": [int(x) for x in rng.integers(0, 99, int(rng.integers(0, 3)))], "SurfaceForms": [text(rng, "\t") for _ in range(int(rng.integers(0, 3)))]}
            for _ in range(int(gen.pick(rng, [0, 1, 1, 2])))]


def mind_split(rng, pool):
    """Records of one split: behaviours and articles."""
    users = ["U1", "U22", "NA", "None", "007", 'U"9', "1"]
    beh = []
    for k in range(size(rng)):
        t = dt.datetime(2019, 1, 1) + dt.timedelta(seconds=int(rng.integers(0, 364 * 86400)))
        if rng.random() < 0.2:
            t = t.replace(hour=int(gen.pick(rng, [0, 12])), minute=int(gen.pick(rng, [0, 59])))
        hist = " ".join(gen.pick(rng, pool) for _ in range(int(gen.pick(rng, [0, 0, 1, 5])))) or None
        cand = [(gen.pick(rng, pool), bool(rng.integers(2))) for _ in range(int(gen.pick(rng, [0, 1, 2, 12])))]
        beh.append((int(gen.pick(rng, [k + 1, 1, 99])), gen.pick(rng, users), t, hist, cand))
    news = []
    for i in rng.permutation(len(pool))[:int(rng.integers(1, len(pool) + 1))]:
        te, ae = (entities(rng) for _ in range(2))
        news.append([pool[int(i)]] + [text(rng, "\t") or None for _ in range(5)] + [te, ae])
    return beh, news


def mind(case):
    import irspack.dataset as ds
    rng = case.rng
    pool = ["N1", "N22", "N3-4", "NA", "null", "N5-0", "007", "N6"][:int(rng.integers(1, 9))]
    data = {s: mind_split(rng, pool) for s in ("train", "dev")}
    for i, a in enumerate(data["dev"][1]):      # the same article in both splits
        same = [b for b in data["train"][1] if b[0] == a[0]]
        if same and rng.random() < 0.8:
            data["dev"][1][i] = list(same[0])
    e = eol(rng)
    ecount = int(gen.pick(rng, [1, 4, 100]))
    kind = gen.pick(rng, [0, 1.0, 1e-8, 1e-30, 1e6])
    vec = {s: [(f"Q{int(rng.integers(10 ** 6))}", [float(np.round(x, 6)) if kind == 0 else float(x) * kind for x in rng.normal(size=ecount)]) for _ in range(size(rng))] for s in data}
    gap = ecount > 1 and rng.random() < 0.25        # a number is missing: an error, or missing only there
    if gap:
        q = gen.pick(rng, vec[gen.pick(rng, ["train", "dev"])])[1]
        q[int(rng.integers(ecount - 1))] = float("nan")
    with_null = rng.random() < 0.3

    def blob(s):
        beh, news = data[s]
        b = "".join("\t".join([str(i), u, mind_time(rng, t), h or "", " ".join(f"{c}-{int(k)}" for c, k in cand)]) + e for i, u, t, h, cand in beh)
        asc = bool(rng.integers(2))
        n = "".join("\t".join([x or "" for x in r[:6]] + ["" if (not z and with_null) else json.dumps(z, ensure_ascii=asc) for z in r[6:]]) + e for r in news)
        v = "".join(q + "\t" + "\t".join("" if x != x else repr(x) for x in xs) + "\n" for q, xs in vec[s])
        return b, n, v
    paths = {}
    with contextlib_dirs() as d:
        texts = {}
        for s in data:
            pre = gen.pick(rng, ["", f"MINDsmall_{s}/", "a/b/"])
            b, n, v = blob(s)
            texts[s] = (b, n)
            paths[s] = os.path.join(d, s + ".zip")
            with zipfile.ZipFile(paths[s], "w", zipfile.ZIP_DEFLATED) as z:
                z.writestr("decoy/xbehaviors.tsv", "junk")
                for name, body in (("behaviors.tsv", b), ("news.tsv", n), ("entity_embedding.vec", v), ("relation_embedding.vec", v[:v.index("\n") + 1])):
                    z.writestr(pre + name, body)
        with ds.MINDDataManager(paths["train"], paths["dev"]) as m:
            for s in gen.pick(rng, [("train", "dev"), ("dev", "train")]):
                compare(case, m.read_behaviors(s), [(i, u, t, h, " ".join(f"{c}-{int(k)}" for c, k in cand) or None) for i, u, t, h, cand in data[s][0]],
                        ["impression_id", "user_id", "timestamp", "history", "impressions"], "mind-behavior", s)
                for fn, w in ((m.read_entity_embeddings, vec[s]), (m.read_relation_embeddings, vec[s][:1])):
                    try:
                        got = fn(s)
                    except ValueError:
                        if any(x != x for _, xs in w for x in xs):
                            case.count("embeddings_refused")
                            continue
                        raise
                    case.check(got.index.tolist() == [q for q, _ in w], "mind-embedding-ids", s)
                    case.check(got.shape == (len(w), ecount) and np.allclose(got.to_numpy(), np.array([x for _, x in w], np.float32), rtol=2.5e-7, atol=0, equal_nan=True), "mind-embedding", f"{s} {got.shape}")
            for s in ("train", "dev", None):
                parts = [s] if s else ["train", "dev"]
                want = [(i, u, t, c, k, pos, q) for q in parts for i, u, t, h, cand in data[q][0] for pos, (c, k) in enumerate(cand)]
                cols = ["impression_id", "user_id", "timestamp", "item_id", "clicked", "position", "split"]
                kw = {} if s is None and rng.random() < 0.5 else {"split": s}
                compare(case, m.read_impressions(**kw), want, cols, "mind-impression", f"{s}")
                compare(case, m.read_impressions(clicked_only=True, **kw), [r for r in want if r[4]], cols, "mind-click", f"{s}")
                compare(case, m.read_interaction(**kw), [r[:4] + r[6:] for r in want if r[4]], cols[:4] + cols[6:], "mind-interaction", f"{s}")
                arts, have = [], set()
                for q in parts:
                    for r in data[q][1]:
                        if r[0] not in have:
                            have.add(r[0]), arts.append(tuple(r))
                icols = ["category", "subcategory", "title", "abstract", "url", "title_entities", "abstract_entities"]
                compare(case, m.read_item_info(**kw), arts, icols, "mind-article", f"{s}", index="item_id")
                raw = m.read_item_info(parse_entities=False, **kw)
                compare(case, raw.drop(columns=icols[5:]), [a[:6] for a in arts], icols[:5], "mind-article-raw", f"{s}", index="item_id")
                for c, j in (("title_entities", 6), ("abstract_entities", 7)):
                    for g, w in zip(raw[c].tolist(), arts):
                        case.check((cell(g) is None and not w[j]) or (isinstance(g, str) and json.loads(g) == w[j]), "mind-raw-entities", f"{s} {g!r}")
    case.seen(hash(str(texts)), layout=e == "\n", behaviours=[len(data[s][0]) for s in data], articles=[len(data[s][1]) for s in data])


@contextmanager
def contextlib_dirs():
    d = tempfile.mkdtemp(prefix="s02-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- the others

def amazon(case):
    import irspack.dataset as ds
    rng = case.rng
    n = size(rng)
    AID = ["A1YS", "B000", "0001393774", "5555991584", "NA", "None", "1e5", "0", "AB-C", gen.pick(rng, ["NULL", "null", "nan", "NaN", "n/a", "N/A", "-nan", "#N/A", "<NA>", "true", "False", "inf"])]
    rows = [(gen.pick(rng, AID), gen.pick(rng, AID), float(rng.integers(1, 6)), stamp(rng)) for _ in range(n)]
    body = "".join(",".join(map(str, r)) + "\n" for r in rows)
    metas, want = [], []
    for k in range(size(rng)):
        a = gen.pick(rng, AID) + str(k)
        t = text(rng) if rng.random() < 0.8 else None
        pr = float(gen.pick(rng, [0.0, 9.99, 1e3])) if rng.random() < 0.7 else None
        cats = [[text(rng) for _ in range(int(rng.integers(1, 3)))] for _ in range(int(rng.integers(1, 3)))] if rng.random() < 0.8 else None
        d = {"asin": a, "salesRank": {"Music": 3}, "related": {"also_bought": ["x"]}}
        for key, v in (("title", t), ("price", pr), ("categories", cats)):
            if v is not None:
                d[key] = v
        metas.append({q: d[q] for q in rng.permutation(sorted(d)).tolist()})
        want.append((a, t, pr, cats[0] if cats else None))
    meta = "".join(repr(d) + "\n" for d in metas)
    with archive(case, [("amazon-music/ratings.csv", body), ("amazon-music/music-meta.json", meta)]) as p:
        m = ds.AmazonMusicDataManager(p)
        compare(case, m.read_interaction(), rows, ["user_id", "music_id", "rating", "timestamp"], "amazon-rating", f"{n} rows")
        compare(case, m.read_metadata(), want, ["title", "price", "categories"], "amazon-meta", f"{len(want)} rows", index="music_id")
        m.zf.close()
    case.seen(n, hash(body + meta), rows=n, articles=len(want))


def citeulike(case):
    import irspack.dataset as ds
    rng = case.rng
    n = size(rng)
    lists = [[int(x) for x in rng.integers(0, 17000, int(gen.pick(rng, [0, 1, 3, 30])))] for _ in range(n)]
    body = "".join(" ".join(map(str, [len(l)] + l)) + gen.pick(rng, ["", " "]) + "\n" for l in lists)
    rows = []
    for k, i in enumerate(rng.permutation(size(rng))):
        tx = lambda: gen.pick(rng, ["deep, learning", 'a "b" c', "line\nbreak", "caf\xe9", "x;y", "it's", "  pad "])
        rows.append((int(i) + 1, tx(), int(rng.integers(1, 10 ** 6)), tx(), tx()))
    b = io.StringIO()
    w = csv.writer(b, quoting=csv.QUOTE_NONNUMERIC, lineterminator="\n")
    w.writerow(["doc.id", "title", "citeulike.id", "raw.title", "raw.abstract"])
    w.writerows(rows)
    with archive(case, [("citeulike-a-master/users.dat", body), ("citeulike-a-master/raw-data.csv", b.getvalue().encode("latin-1"))]) as p:
        m = ds.CiteULikeADataManager(p)
        compare(case, m.read_interaction(), [(u, i) for u, l in enumerate(lists) for i in l], ["user_id", "item_id"], "citeulike", f"{n} users")
        compare(case, m.read_item_meta(), [(r[0] - 1,) + r[1:] for r in rows], ["title", "citeulike.id", "raw.title", "raw.abstract"], "citeulike-meta", f"{len(rows)} rows", index="doc.id")
        m.zf.close()
    if n > 1:           # a line without any user: refused, or the later users keep their numbers
        k = int(rng.integers(0, n))
        lines = body.splitlines(keepends=True)
        with archive(case, [("citeulike-a-master/users.dat", "".join(lines[:k] + ["\n"] + lines[k:]))]) as p:
            m = ds.CiteULikeADataManager(p)
            try:
                got = m.read_interaction()
            except Exception:
                case.count("blank_line_refused")
            else:
                compare(case, got, [(u + (u >= k), i) for u, l in enumerate(lists) for i in l], ["user_id", "item_id"], "citeulike-blank-line", f"line {k}")
            m.zf.close()
    case.seen(n, hash(body), users=n, articles=len(rows))


def neumf(case):
    import irspack.dataset as ds
    rng = case.rng
    n = size(rng)
    rows = [(a, b, int(rng.integers(1, 6)), stamp(rng)) for a, b in zip(ids(rng, n, False), ids(rng, n, False))]
    body = "".join("\t".join(map(str, r)) + "\n" for r in rows)
    test, want = "", []
    for u in range(size(rng)):
        pool = int(gen.pick(rng, [100, 130, 700]))
        pos = int(rng.integers(0, pool))
        neg = [int(x) for x in rng.choice(pool, int(gen.pick(rng, [1, 2, 20, 99, pool])), replace=False)]
        sp = gen.pick(rng, ["", "", " "])
        test += f"({u},{sp}{pos})\t" + "\t".join(map(str, neg)) + gen.pick(rng, ["", "", "\t", " "]).replace("\t", "") + "\n"
        want += [(u, pos, True)] + [(u, i, False) for i in neg if i != pos]
    cls = gen.pick(rng, [ds.NeuMFML1MDownloader, ds.NeuMFMPinterestDownloader])
    with archive(case, [("train", body), ("test", maybe_last(rng, test, "\n"))]) as p:
        m = cls(p)
        a, b = m.read_train_test()
        compare(case, a, [(x, y, r, utc(t)) for x, y, r, t in rows], ["user_id", "item_id", "rating", "timestamp"], "neumf-train", f"{n} rows")
        compare(case, b, want, ["user_id", "item_id", "positive"], "neumf-test", f"{len(want)} rows")
        m.zf.close()
    case.seen(n, hash(body + test), rows=n, pairs=len(want))


# ---------------------------------------------------------------- hostile content

def mind_pair(d, files):
    p = os.path.join(d, "m.zip")
    with zipfile.ZipFile(p, "w") as z:
        for n, b in files:
            z.writestr(n, b)
    return p


def refused(case):
    """Damaged content is an error, never a record."""
    import irspack.dataset as ds
    rng = case.rng
    T = "11/9/2019 1:05:09 PM"
    good_b, good_n = f"1\tU1\t{T}\tN1\tN1-1 N2-0\n", 'N1\tc\ts\tt\ta\tu\t[]\t[]\n'
    kind = gen.pick(rng, ["label", "label", "time", "json", "jsonkind", "member", "twice", "crc", "counts", "neumf", "ml-time", "split", "notzip"])
    with contextlib_dirs() as d:
        def mindm(b=good_b, n=good_n, extra=(), drop=()):
            p = mind_pair(d, [x for x in (("behaviors.tsv", b), ("news.tsv", n)) if x[0] not in drop] + list(extra))
            return ds.MINDDataManager(p, p)
        calls = []
        if kind == "label":
            bad = gen.pick(rng, ["N1", "N1-2", "N1-", "-1", "N1-01", "N1-x", "N1- 1", "N1_1"])
            m = mindm(b=good_b * int(rng.integers(0, 3)) + f"1\tU1\t{T}\t\tN5-0 {bad}\n")
            calls = [m.read_impressions, m.read_interaction, lambda: m.read_impressions("train", clicked_only=True)]
        elif kind == "time":
            m = mindm(b=good_b + f"1\tU1\t{gen.pick(rng, ['13/40/2019 1:05:09 PM', 'yesterday', '2019-11-09', '11/9/2019 25:05:09 PM'])}\t\tN1-1\n")
            calls = [m.read_behaviors, m.read_impressions, m.read_interaction]
        elif kind in ("json", "jsonkind"):
            v = gen.pick(rng, ["[", "[{]", "nope", "[1,]", "{'a': 1}"] if kind == "json" else ['{"a": 1}', '"x"', "3", "true"])
            m = mindm(n=good_n + f"N2\tc\ts\tt\ta\tu\t{v}\t[]\n")
            calls = [m.read_item_info, lambda: m.read_item_info("train")]
        elif kind == "member":
            m = mindm(drop=("behaviors.tsv", "news.tsv"), extra=[("xbehaviors.tsv", good_b)])
            calls = [m.read_behaviors, m.read_impressions, m.read_item_info, m.read_entity_embeddings]
        elif kind == "twice":
            m = mindm(drop=("behaviors.tsv",), extra=[("a/behaviors.tsv", good_b), ("b/behaviors.tsv", good_b)])
            calls = [m.read_behaviors]
        elif kind == "split":
            m = mindm()
            s = gen.pick(rng, ["test", "", "Train", "train ", 0])
            calls = [lambda: m.read_behaviors(s), lambda: m.read_impressions(s), lambda: m.read_item_info(s), lambda: m.read_entity_embeddings(s)]
            bad = gen.pick(rng, [dict(size="medium"), dict(download_source="ftp"), dict(size="")])
            calls.append(lambda: ds.MINDDataManager(os.path.join(d, "m.zip"), os.path.join(d, "m.zip"), **bad))
        elif kind == "crc":
            target = gen.pick(rng, ["ml-100k/u.data", "ml-1m/ratings.dat", "ml-20m/ratings.csv", "amazon-music/ratings.csv", "citeulike-a-master/users.dat", "train", "behaviors.tsv"])
            body = {"ml-1m/ratings.dat": "1::2::3::978300760\n", "ml-20m/ratings.csv": "userId,movieId,rating,timestamp\n1,2,3.0,978300760\n", "amazon-music/ratings.csv": "A,B,1.0,3\n",
                    "citeulike-a-master/users.dat": "1 5\n", "behaviors.tsv": good_b}.get(target, "1\t2\t3\t978300760\n")
            body += body.splitlines(True)[-1] * 40
            with archive(case, [(target, body), ("test", "(0,1)\t2\n")], corrupt=target) as p:
                cls = {"ml-100k": ds.MovieLens100KDataManager, "ml-1m": ds.MovieLens1MDataManager, "ml-20m": ds.MovieLens20MDataManager, "amazon-music": ds.AmazonMusicDataManager,
                       "citeulike-a-master": ds.CiteULikeADataManager, "train": ds.NeuMFML1MDownloader}.get(target.split("/")[0])
                m = cls(p) if cls else ds.MINDDataManager(p, p)
                f = m.read_behaviors if cls is None else m.read_train_test if target == "train" else m.read_interaction
                case.raises(Exception, f, "damaged-member-accepted", target)
        elif kind == "counts":
            l = gen.pick(rng, ["2 5\n", "1 5 6\n", "x 5\n", "1 y\n"])
            with archive(case, [("citeulike-a-master/users.dat", "1 3\n" * int(rng.integers(0, 3)) + l)]) as p:
                case.raises(Exception, ds.CiteULikeADataManager(p).read_interaction, "bad-citeulike-accepted", l)
        elif kind == "neumf":
            l = gen.pick(rng, ["0,1\t2\n", "(0,1)\tx\n", "(0)\t1\n", "()\t1\n", "(a,1)\t2\n"])
            with archive(case, [("train", "1\t2\t3\t978300760\n"), ("test", "(0,1)\t2\n" * int(rng.integers(0, 3)) + l)]) as p:
                case.raises(Exception, ds.NeuMFML1MDownloader(p).read_train_test, "bad-neumf-accepted", l)
        elif kind == "ml-time":
            cls, name, sep = gen.pick(rng, [(ds.MovieLens100KDataManager, "ml-100k/u.data", "\t"), (ds.MovieLens1MDataManager, "ml-1m/ratings.dat", "::")])
            with archive(case, [(name, sep.join(["1", "2", "3", "978300760"]) + "\n" + sep.join(["1", "2", "3", "soon"]) + "\n")]) as p:
                case.raises(Exception, cls(p).read_interaction, "bad-time-accepted", name)
        elif kind == "notzip":
            p = os.path.join(d, "x.zip")
            with open(p, "wb") as fh:
                fh.write(gen.pick(rng, [b"", b"<html/>", b"PK\x03\x04" + rng.bytes(50)]))
            for cls in (ds.MovieLens100KDataManager, ds.MovieLens1MDataManager, ds.MovieLens20MDataManager, ds.AmazonMusicDataManager, ds.CiteULikeADataManager, ds.NeuMFML1MDownloader):
                calls.append(lambda cls=cls: cls(p))
            calls.append(lambda: ds.MINDDataManager(p, p))
        for f in calls:
            case.raises(Exception, f, "malformed-accepted-" + kind, kind)
    case.seen(kind, case.index % 40, kind=kind)


def inert(case):
    """Nothing in an archive is executed."""
    import irspack.dataset as ds
    rng = case.rng
    with contextlib_dirs() as d:
        mark = os.path.join(d, "executed")
        act = gen.pick(rng, [f"open({mark!r}, 'w')", f"__import__('os').mkdir({mark!r})", f"[open({mark!r}, 'w') for _ in [1]]", f"(lambda: open({mark!r}, 'w'))()",
                             f"exec(\"open({mark!r}, 'w')\")", f"print(open({mark!r}, 'w'))", f"().__class__.__base__.__subclasses__() and open({mark!r}, 'a')"])
        where = gen.pick(rng, ["line", "value", "key", "f", "nested", "statement"])
        line = {"line": act, "value": "{'asin': " + act + "}", "key": "{" + act + ": 1, 'asin': 'x'}", "f": "{'asin': f\"{" + act.replace('"', "'") + "}\"}",
                "nested": "{'asin': 'x', 'categories': [[" + act + "]]}", "statement": "{'asin': 'x'}; " + act}[where]
        with archive(case, [("amazon-music/music-meta.json", "{'asin': 'x'}\n" * int(rng.integers(0, 2)) + line + "\n"), ("amazon-music/ratings.csv", "A,B,1.0,1\n")]) as p:
            m = ds.AmazonMusicDataManager(p)
            try:
                m.read_metadata()
                refused = False
            except Exception:
                refused = True
            case.check(not os.path.exists(mark), "archive-content-executed", line)
            case.check(refused, "executable-content-accepted", line)
            m.zf.close()
        # code in the other readers' text stays text
        p = mind_pair(d, [("news.tsv", f"N1\tc\ts\t{act}\t{act}\tu\t[]\t[]\n"), ("behaviors.tsv", f"1\t{act}\t11/9/2019 1:05:09 PM\t\tN1-1\n")])
        with ds.MINDDataManager(p, p) as m:
            case.check(m.read_item_info("train").loc["N1", "title"] == act and m.read_interaction("train").loc[0, "user_id"] == act, "text-changed", act)
        case.check(not os.path.exists(mark), "archive-content-executed", act)
    case.count("payloads")
    case.seen(where, act.replace(mark, ""), where=where)


FAMILIES = [("ml_ratings", ml_ratings, 90, 3000), ("ml_users", ml_users, 90, 3000), ("ml_items", ml_items, 200, 6000), ("mind", mind, 90, 3000), ("amazon", amazon, 90, 3000),
            ("citeulike", citeulike, 60, 2000), ("neumf", neumf, 70, 2000), ("refused", refused, 260, 3000), ("inert", inert, 80, 800)]
