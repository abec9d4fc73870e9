"""Reader of output.txt."""
import re

NUM = r"(-?(?:\d+(?:\.\d+)?|nan|inf))"


class Bad(Exception):
    pass


def rows_of(text, areas):
    """{(area or None, level or 'AV', cause): [numbers]} of a results table."""
    out = {}
    cut = text.find("POOL STATISTICS")
    if cut < 0:
        raise Bad("no pool statistics")
    for m in re.finditer(r"^[ ]*(\d+)[ ]+(\d+|AV)((?:[ ]+-?(?:[\d.]+|nan|inf))+)[ ]+(GC|TC|GT)[ ]*$", text[:cut], re.M):
        key = (int(m.group(1)), m.group(2), m.group(4))
        if key in out:
            raise Bad("row %s twice" % (key,))
        out[key] = [float(x) for x in m.group(3).split()]
    for m in re.finditer(r"(?:^|(?<=GC)|(?<=TC)|(?<=GT))[ ]*(\d+|AV)((?:[ ]+-?(?:[\d.]+|nan|inf))+)[ ]+(GC|TC|GT)", text[cut:], re.M):
        key = (None, m.group(1), m.group(3))
        if key in out:
            raise Bad("pool row %s twice" % (key,))
        out[key] = [float(x) for x in m.group(2).split()]
    return out


def final(text):
    parts = re.split(r"FINAL RESULTS AFTER +(\d+) +REPLICATIONS", text)
    res = {"count": (len(parts) - 1) // 2}
    if res["count"] == 0:
        return res
    res["years"] = int(parts[1])
    body = parts[2]
    i = body.find("SUMMARY OF RESULTS")
    if i < 0:
        raise Bad("no summary")
    j = body.find("PROBABILITY DISTRIBUTIONS")
    if j < 0:
        raise Bad("no distributions")
    res["rows"] = rows_of(body[:i], None)
    res["summary"] = []
    for line in body[i:j].splitlines():
        m = re.match(r"^[ ]+(\S+)((?:[ ]+-?(?:[\d.]+|nan|inf)){4,})[ ]*$", line)
        if m:
            res["summary"].append((m.group(1), [float(x) for x in m.group(2).split()]))
    res["dist"] = {}
    for blk in re.split(r"PROBABILITY DISTRIBUTIONS FOR AREA", body[j:])[1:]:
        area = int(re.match(r"\s*(\d+)", blk).group(1))
        rows = []
        for line in blk.splitlines()[1:]:
            t = line.split()
            if len(t) == 8 and re.match(r"^[\d.\-naif]+$", "".join(t)):
                rows.append([float(x) for x in t])
        if area in res["dist"]:
            raise Bad("distribution twice")
        res["dist"][area] = rows
    return res


def annual(text):
    """The tables printed after every year: [(replication, rows)]."""
    out = []
    cut = text.find("FINAL RESULTS AFTER")
    if cut >= 0:
        text = text[:cut]
    parts = re.split(r"\bRESULTS AFTER (\d+) REPLICATIONS", text)
    for k in range(1, len(parts), 2):
        out.append((int(parts[k]), rows_of(parts[k + 1], None)))
    return out
