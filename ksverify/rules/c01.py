"""Round trip of command data.

Every input partition of the reference (a command line whose option values are
holes standing for any word or number) is interpreted abstractly in every
command generation; the changed command objects are written by their own
writers and the resulting text template is interpreted in a new handler of the
same version. The abstract data before and after must be identical; holes are
compared by identity, so equality holds for every value of the hole."""
from .. import argmodel, spec
from ..check import bad, ok, undecided, world
from ..values import *
from ..world import unsure, untpl

LUKS = {"passphrase", "cipher", "escrowcert", "backuppassphrase", "luks_version", "pbkdf", "pbkdf_memory", "pbkdf_time", "pbkdf_iterations"}
SIZES = {"size", "maxSizeMB", "chunk_size", "metadata_size", "reserved_space", "reserved_percent", "pesize", "bytesPerInode", "start", "end",
         "cache_size", "percent", "thin_pool", "spares", "pbkdf_memory", "pbkdf_time", "pbkdf_iterations", "requiredSpaceMB", "sectorsize"}


def exempt(w, name, attr, old, new, obj):
    """Reason why the statement does not require this attribute to survive."""
    if isinstance(old, str) and old == "" or old == [""] or old is None:
        return "an empty value counts as not given"
    if attr in SIZES and type(old) is int and old <= 0:
        return "a size of zero or less counts as not given"
    if attr in deprecated_dests(w, name):
        return "deprecated options have no effect"
    if name in ("autopart", "part", "raid", "logvol") and attr in LUKS and obj.get("encrypted") in (None, False):
        return "encryption details without --encrypted"
    if name in ("autopart", "part", "raid", "logvol") and attr == "backuppassphrase" and not obj.get("escrowcert"):
        return "--backuppassphrase is only relevant with --escrowcert"
    if name == "logvol" and attr == "pool_name" and obj.get("thin_volume") in (None, False):
        return "--poolname belongs to --thin"
    if name == "bootloader" and obj.get("disabled") is True:
        return "nothing else matters next to --disabled"
    if name == "firewall" and obj.get("enabled") is False:
        return "rules of a disabled firewall"
    if name == "firewall" and obj.get("use_system_defaults") is True:
        return "nothing else matters next to --use-system-defaults"
    if name == "btrfs" and attr in ("name", "parent") and obj.get("subvol") in (None, False):
        return "subvolume details without --subvol"
    if name == "btrfs" and attr == "parent":
        return "the parent is the volume the subvolume is created in (first member)"
    if name == "sshpw" and attr in ("isCrypted", "lock") and obj.get("sshkey") is True:
        return "password options next to --sshkey"
    if name == "nvdimm" and attr in ("sectorsize", "mode") and obj.get("action") == "use":
        return "the sector size belongs to the reconfigure action"
    if name == "vnc" and attr == "port" and not obj.get("host"):
        return "the port belongs to --host"
    if name in ("install", "upgrade") and attr == "root_device" and obj.get("upgrade") in (None, False):
        return "the root device belongs to an upgrade"
    if name == "keyboard" and attr == "kbd" and (obj.get("vc_keymap") or obj.get("x_layouts")):
        return "the old format is kept as a comment next to the new one"
    return None


_dep = {}


def deprecated_dests(w, name):
    k = (w.ver, name)
    if k not in _dep:
        r = set()
        t = w.table(name) if name in w.cmds else None
        for s, a in (t or {}).items():
            d = w.base.get(a).d
            if w.I.truth(w.base, d.get("deprecated", Const(False))) is not False:
                if isinstance(d["dest"], Const):
                    r.add(d["dest"].v)
        _dep[k] = r
    return _dep[k]


def strip_seen(ch):
    r = {}
    for n, d in ch.items():
        d = {k: v for k, v in d.items() if k != "seen"}
        if d:
            r[n] = d
    return r


def diff_attrs(a, b, path="", obj=None):
    """(path, old, new, enclosing old object) of the leaves that differ."""
    if type(a) is dict and type(b) is dict:
        out = []
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                out.append((path + "." + k if path else k, a.get(k, "<default>"), b.get(k, "<default>"), a))
            else:
                out += diff_attrs(a[k], b[k], path + "." + k if path else k, a)
        return out
    if type(a) is list and type(b) is list and len(a) == len(b):
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            out += diff_attrs(x, y, path, obj)
        return out
    if a == b and type(a) is type(b):
        return []
    return [(path, a, b, obj)]


def written(w, st, names):
    """Text the command objects write, or (None, why, outcome)."""
    parts = []
    for n in names:
        v, out = w.str_of(st, w.commands(st)[n])
        if out.status in ("exc", "err"):
            return None, "writing raises %s" % out.exc, out
        if out.status != "ok":
            return None, None, out
        if sparts(v) is None:
            return None, None, out
        parts.append(v)
        parts.append("\n")
    return mk_str(parts), None, None


def roundtrip(w, line, base=None):
    """('ok'|'undecided'|'rejected', why) or ('bad', kind, message, items)."""
    out = w.read(line + "\n")
    if out.status in ("err", "exc"):
        return "rejected", None
    if out.status != "ok" or out.why:
        return "undecided", out.why or out.status
    st = out.state
    snaps = w.changed(st)
    ch = strip_seen({n: w.diff(n, s) for n, s in snaps.items()})
    if unsure(ch):
        return "undecided", "data"
    if not ch:
        return "ok", None
    text, wbad, o2 = written(w, st.copy(), list(ch))
    if wbad:
        return "bad", "write-raises", wbad, None
    if text is None:
        return "undecided", "text not determined"
    out2 = w.read(text)
    t = untpl(text)
    if out2.status == "err":
        return "bad", "rejected", "the written text is rejected: %r" % t, None
    if out2.status == "exc":
        return "bad", "raises", "reading the written text raises %s: %r" % (out2.exc, t), None
    if out2.status != "ok" or out2.why:
        return "undecided", "re-reading"
    snaps2 = w.changed(out2.state)
    ch2 = strip_seen({n: w.diff(n, s) for n, s in snaps2.items()})
    if unsure(ch2):
        return "undecided", "data"
    if "lilo" in ch and "bootloader" in ch2 and "lilo" not in ch2:
        # the lilo command is written as the bootloader command it stands for
        ch2 = {"lilo" if n == "bootloader" else n: d for n, d in ch2.items()}
        snaps2["lilo"] = snaps2["bootloader"]
    if ch == ch2:
        return "ok", None
    items = []
    for n in sorted(set(ch) | set(ch2)):
        full = snaps.get(n) or w.snap0(n)
        for p, a, b, obj in diff_attrs({k: v for k, v in full.items() if k != "seen"},
                                       {k: v for k, v in (snaps2.get(n) or w.snap0(n)).items() if k != "seen"}):
            attr = p.split(".")[-1]
            if exempt(w, n, attr, a, b, obj or full):
                continue
            items.append({"cmd": n, "attr": attr, "path": p, "old": a, "new": b, "obj": obj or full, "class": w.cls_name(n)})
    if not items:
        return "ok", None
    msg = "; ".join("%s.%s was %r, reads back %r" % (i["cmd"], i["path"], i["old"], i["new"]) for i in items[:4])
    return "bad", "data", "%s (written text %r)" % (msg, t), items


def where(w, name):
    c = w.base.get(w.cmds[name]).cls if name in w.cmds else None
    if c is None:
        return name
    d = [v.name for v in w.data_cls(name).values() if v.module == c.module]
    return "%s.py %s%s" % (c.module.replace(".", "/"), c.name, " (data %s)" % ", ".join(d) if d else "")


def task(t):
    ver, lines = t
    w = world(ver)
    n = 0
    for name, l, exp in lines:
        r = roundtrip(w, l)
        if r[0] == "ok":
            n += 1
        elif r[0] == "undecided":
            yield undecided("%s: %s" % (name, r[1]), "%s: %s" % (ver, l))
        elif r[0] == "bad":
            kind, msg, items = r[1:]
            cls = w.cls_name(name)
            if items:
                attrs = sorted(set((i["cmd"], i["attr"]) for i in items))
                key = ("data", name, str(attrs[0]))
            else:
                key = (kind, name, cls)
                items = [{"cmd": name, "kind": kind, "class": cls, "line": l}]
            yield bad(key, msg, where(w, name), {"version": ver, "line": l}, items)
    yield ok(n)
    if lines:
        yield ("sample", "%s: %s" % (ver, lines[len(lines) // 2][1]))


def check(rep):
    rep.run(task, spec.tasks(rep.tier, want=lambda l, e: e != "E" and not (isinstance(e, str) and e.startswith("X")), hist=False))
