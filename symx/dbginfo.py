"""Which source functions a run executed, from the debug locations of the executed instructions."""
import re, subprocess

def _sub(meta, loc, out, seen):
    while loc and loc not in seen:
        seen.add(loc)
        s = meta.get(loc, "")
        m = re.search(r"scope: (!\d+)", s)
        line = re.search(r"line: (\d+)", s)
        sc = m and m.group(1)
        while sc:
            d = meta.get(sc, "")
            if "DISubprogram" in d:
                out.add((sc, int(line.group(1)) if line else 0))
                break
            m = re.search(r"scope: (!\d+)", d)
            sc = m and m.group(1)
        m = re.search(r"inlinedAt: (!\d+)", s)
        loc = m and m.group(1)

def functions(E, under="/repo/"):
    """{function: number of distinct source lines executed} for functions defined below `under`"""
    meta = E.mod.meta
    subs, seen = set(), set()
    for hit, (fn, dbgs) in zip(E.cov, E.covinfo):
        if hit:
            for d in dbgs:
                _sub(meta, d, subs, seen)
    lines = {}
    names = {}
    for sc, line in subs:
        d = meta[sc]
        f = re.search(r"file: (!\d+)", d)
        fd = meta.get(f.group(1), "") if f else ""
        fn = re.search(r'filename: "([^"]*)"', fd)
        dr = re.search(r'directory: "([^"]*)"', fd)
        p = fn.group(1) if fn else ""
        if not p.startswith("/") and dr:
            p = dr.group(1) + "/" + p
        if not p.startswith(under):
            continue
        ln = re.search(r'linkageName: "([^"]*)"', d)
        nm = re.search(r'name: "([^"]*)"', d).group(1)
        k = (p[len(under):], re.sub(r"<.*", "", nm), re.search(r"line: (\d+)", d).group(1))
        lines.setdefault(k, set()).add(line)
    return {"%s:%s %s" % (p, l, n): sorted(x for x in v if x) for (p, n, l), v in lines.items()}
