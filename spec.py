"""Properties -> harness entries.  The entries of a property are the entry points of its harness binary
(harness/src/bin/<bin>.rs, `entries!`); names starting with h_t_ run only in the thorough tier.  The bound of an entry is
its `///` comment in the harness source."""
import os, re
ROOT = os.path.dirname(os.path.abspath(__file__))
KNOWN_FINDINGS_FILE = os.path.join(ROOT, "known_findings.jsonl")


FEATURES = {"c08n": ["nopar"]}  # harness features of a harness binary


def entries(b, over):
    src = open(os.path.join(ROOT, "harness/src/bin/%s.rs" % b)).read()
    for inc in re.findall(r'include!\("\.\./(\w+\.rs)"\)', src):
        src = open(os.path.join(ROOT, "harness/src", inc)).read() + src
    out = []
    tail = src[src.rindex("entries!("):]
    for name in re.findall(r"\b(h_\w+)\b", tail):
        m = re.search(r"((?:^[ \t]*///[^\n]*\n)+)(?:[ \t]*#\[no_mangle\]\s*)?(?:pub extern \"C\" fn|on!\(\w+,) %s\b" % name, src, re.M)
        e = dict(entry=name, bin=b, bound=" ".join(x.strip()[3:].strip() for x in m.group(1).splitlines()) if m else "")
        if not e["bound"]:
            m = re.search(r"fn %s\(\) \{\n((?:[ \t]*//[^\n]*\n)+)" % name, src)
            e["bound"] = " ".join(x.strip().lstrip("/").strip() for x in m.group(1).splitlines()) if m else ""
        if name.startswith("h_t_"):
            e["tier"] = "thorough"
            e["ttime"] = 1500
        e.update(over.get(name, {}))
        out.append(e)
    return out


def P(b, over={}, **kw):
    bins = b if isinstance(b, list) else [b]
    es = []
    for x in bins:
        es += entries(x, over)
    return dict(entries=es, **kw)


FN = ["found", "not-found"]
T = lambda s: dict(time=s)
PROPS = {
    "C01": P("c01", {"h_k4": dict(reach=FN), "h_topology": dict(reach=FN)}),
    "C02": P("c02", {"h_k4_minkey": dict(reach=FN), "h_catch": dict(reach=FN)}),
    "C03": P("c03"),
    "C04": P("c04"),
    "C05": P("c05"),
    "C06": P("c06"),
    "C07": P("c07"),
    "C08": P(["c08", "c08n"]),
    "C09": P("c09"),
    "C10": P("c10"),
    "C11": P("c11"),
    "C12": P("c12"),
    "C13": P("c13"),
    "C14": P("c14"),
    "C15": P("c15"),
    "C16": P("c16"),
    "C17": P("c17"),
    "C18": P("c18"),
    "C19": P("c19"),
    "C20": P("c20"),
    "C21": P("c21"),
    "C22": P("c22"),
    "C23": P("c23"),
    "C24": P("c24"),
    "C25": P("c25"),
}
