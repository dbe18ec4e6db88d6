H = '''
import sys, os, tempfile, warnings, shutil, atexit, io, contextlib
warnings.simplefilter("ignore")
from pykickstart.parser import KickstartParser, Script, Group, Packages
from pykickstart.version import makeVersion
from pykickstart import version, errors
from pykickstart.errors import KickstartError, KickstartParseError, KickstartDeprecationWarning, KickstartParseWarning
D = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, D)
def w(name, s):
    p = os.path.join(D, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(s)
    return p
def parse(ver, text, **kw):
    h = makeVersion(ver)
    p = KickstartParser(h, **kw)
    with contextlib.redirect_stderr(io.StringIO()):
        p.readKickstartFromString(text)
    h._p = p
    return h
def parsef(ver, f, **kw):
    h = makeVersion(ver)
    p = KickstartParser(h, **kw)
    with contextlib.redirect_stderr(io.StringIO()):
        p.readKickstart(f)
    h._p = p
    return h
def err(f, *a, **kw):
    try:
        f(*a, **kw)
    except Exception as e:
        return e
    return None
'''
P = "pykickstart/parser.py"
B = "pykickstart/base.py"
O = "pykickstart/options.py"
S = "pykickstart/sections.py"
L = "pykickstart/load.py"
C = "pykickstart/commands/"

# ---- C06
seed("c06-skip-comment-lineno", "C06",
     [(P, '''            lineno += 1

            # Throw away blank lines and comments, unless the section wants all
            # lines.
            if self._isBlankOrComment(line) and not obj.allLines:
                continue
''', '''            # Throw away blank lines and comments, unless the section wants all
            # lines.
            if self._isBlankOrComment(line) and not obj.allLines:
                continue

            lineno += 1
''')], H + '''
e = err(parse, version.F20, "%packages\\na\\n\\n# x\\nb\\n%end\\nbogus\\n")
sys.exit(0 if e.lineno == 7 else 1)
''', "a %packages section with blank or comment lines followed by an error", "later line numbers are too small")
seed("c06-putback", "C06",
     [(P, '''                    lineIter.put(line)
                    lineno -= 1
                    self._finalize(obj)
                    break
            else:''', '''                    lineIter.put(line)
                    if not obj.allLines:
                        lineno -= 1
                    self._finalize(obj)
                    break
            else:''')], H + '''
h = parse(version.FC6, "%pre\\nx\\n%post\\ny\\n")
sys.exit(0 if [s.lineno for s in h.scripts] == [1, 3] else 1)
''', "old version, an unterminated script section followed by another section", "the second section is one line too late")
seed("c06-script-lineno", "C06",
     [(S, '''        self._script["interp"] = ns.interpreter
        self._script["lineno"] = lineno
        self._script["log"] = ns.log''', '''        self._script["interp"] = ns.interpreter
        self._script["lineno"] = self._script["lineno"] or lineno
        self._script["log"] = ns.log'''),
      (S, '''        if " ".join(self._script["body"]).strip() == "":
            self._resetScript()
            return
''', '''        if " ".join(self._script["body"]).strip() == "":
            self._script["body"] = []
            return
''')], H + '''
h = parse(version.F20, "%post\\n%end\\n\\n%post\\ny\\n%end\\n")
sys.exit(0 if [s.lineno for s in h.scripts] == [4] else 1)
''', "an empty script section before another one of the same kind", "the script carries the line of the empty section")
# ---- C07
seed("c07-ext-const", "C07",
     [(O, '''            setattr(namespace, self.dest, self.const + values)
        else:
            setattr(namespace, self.dest, self.const)
''', '''            self.const.extend(getattr(namespace, self.dest))
            setattr(namespace, self.dest, self.const)
        else:
            setattr(namespace, self.dest, list(self.const))
''')], H + '''
h = makeVersion(version.FC6)
p = KickstartParser(h)
p.readKickstartFromString("firewall --enabled --http --http\\n")
p.readKickstartFromString("firewall --enabled --http\\n")
sys.exit(0 if sorted(h.firewall.ports) == ["443:tcp", "80:tcp"] else 1)
''', "firewall --http given twice, then another firewall line", "the option's constant grows")
seed("c07-kwlist", "C07",
     [(C + "services.py", '''        self.disabled = kwargs.get("disabled", [])
''', '''        self.disabled = kwargs.get("disabled", self.removedKeywords)
''')], H + '''
a = makeVersion(version.F20)
a.services.disabled.append("x")
b = makeVersion(version.F20)
sys.exit(1 if b.services.disabled or b.lang.removedKeywords else 0)
''', "a program that appends to a handler's default list of services", "all handlers share the list")
seed("c07-groups", "C07",
     [(C + "user.py", '''        self.groups = kwargs.get("groups", [])
''', '''        self.groups = kwargs.get("groups", self.removedAttrs)
''')], H + '''
h = makeVersion(version.F20)
d = h.UserData(name="x")
d.groups.append("wheel")
sys.exit(1 if makeVersion(version.F20).UserData(name="y").groups else 0)
''', "a program that appends a group to a user's default list", "all users share the list")
# ---- C08
seed("c08-errorline", "C08",
     [(P, '''                if not self._validState(possibleSectionStart) \\
                   and possibleSectionStart not in ("%end", "%include"):''', '''                if not self._validState(possibleSectionStart) \\
                   and possibleSectionStart not in ("%end", "%include", "%ksappend"):''')], H + '''
h = parse(version.F20, "%post\\na\\n%ksappend /x\\nb\\n%end\\n")
sys.exit(0 if h.scripts[0].script == "a\\n%ksappend /x\\nb\\n" else 1)
''', "a script line starting with %ksappend", "that line is dropped from the script")
seed("c08-endprefix", "C08",
     [(P, '''                possibleSectionStart = line.split()[0]
                if not''', '''                possibleSectionStart = line.split("#")[0].split()[0]
                if not''')], H + '''
h = parse(version.F20, "%post\\na\\n%end#x\\nb\\n%end\\n")
sys.exit(0 if h.scripts[0].script == "a\\n%end#x\\nb\\n" else 1)
''', "a script line '%end#something'", "the script line is not kept")
seed("c08-traceback-type", "C08",
     [(S, '''        kwargs = {"interp": self._script["interp"],
                  "inChroot": self._script["chroot"],''', '''        kwargs = {"interp": self._script["interp"] or "/bin/sh",
                  "inChroot": self._script["chroot"] and not self._script["log"],''')], H + '''
h = parse(version.F20, "%post --logfile=/root/x\\na\\n%end\\n")
sys.exit(0 if h.scripts[0].inChroot else 1)
''', "a %post section with a log file", "the script runs outside of the chroot")
seed("c08-crlf", "C08",
     [(P, '''                # This is just a line within a section.  Pass it off to whatever
                # section handles it.
                obj.handleLine(line)''', '''                # This is just a line within a section.  Pass it off to whatever
                # section handles it.
                obj.handleLine(line if line.strip() else "\\n")''')], H + '''
h = parse(version.F20, "%post\\ncat <<E\\n  \\nE\\n%end\\n")
sys.exit(0 if h.scripts[0].script == "cat <<E\\n  \\nE\\n" else 1)
''', "a script line that consists of blanks", "the blanks are lost")
# ---- C09
seed("c09-exclude-keep", "C09",
     [(P, '''        existingExcludedSet = (existingExcludedSet - existingPackageSet) | newExcludedSet
''', '''        existingExcludedSet = (existingExcludedSet | newExcludedSet) - newPackageSet
''')], H + '''
h = makeVersion(version.F20)
p = KickstartParser(h)
p.readKickstartFromString("%packages\\na\\n%end\\n")
h.packages.excludedList = ["a"]
h2 = makeVersion(version.F20)
h2.packages.add(["b", "-b"])
sys.exit(0 if "b" in h2.packages.excludedList else 1)
''', "one add() call with a package and its exclusion", "the exclusion is dropped")
seed("c09-group-lower", "C09",
     [(P, '''        if grp in [g.name for g in self.groupList]:
            return
''', '''        if [g for g in self.groupList if g.name.startswith(grp)]:
            return
''')], H + '''
h = parse(version.F20, "%packages\\n@core-tools\\n@core\\n%end\\n")
sys.exit(0 if sorted(g.name for g in h.packages.groupList) == ["core", "core-tools"] else 1)
''', "a group whose name is the beginning of an earlier group's", "the group is not recorded")
seed("c09-env", "C09",
     [(P, '''                if stripped[1:3] == "@^" and self.environment == stripped[3:]:''', '''                if stripped[1:3] == "@^" and (self.environment or "").startswith(stripped[3:]):''')], H + '''
h = parse(version.F20, "%packages\\n@^server-product\\n-@^server\\n%end\\n")
sys.exit(0 if h.packages.environment == "server-product" else 1)
''', "an excluded environment whose name is the beginning of the requested one's", "the requested environment is dropped")
seed("c09-timeout", "C09",
     [(P, '''        if self.timeout is not None:
            retval += " --timeout=%d" % self.timeout''', '''        if self.timeout is not None and self.timeout > 0:
            retval += " --timeout=%d" % self.timeout''')], H + '''
h = parse(version.F24, "%packages --timeout=0\\na\\n%end\\n")
sys.exit(0 if "--timeout=0" in str(h.packages) else 1)
''', "%packages --timeout=0", "--timeout is not written")
seed("c09-exgroup-opts", "C09",
     [(P, '''                elif stripped[1] == "@":
                    excludedGroupList.append(Group(name=stripped[2:]))''', '''                elif stripped[1] == "@":
                    excludedGroupList.append(Group(name=stripped[2:].split()[0]))''')], H + '''
h = parse(version.F20, "%packages\\n-@Sound and Video\\n%end\\n")
sys.exit(0 if [g.name for g in h.packages.excludedGroupList] == ["Sound and Video"] else 1)
''', "an excluded group with blanks in its name", "the wrong group is excluded")
# ---- C10
seed("c10-flatten-write", "C10",
     [("tools/ksflatten.py", '''    if opts.output:
        f.close()

    return (0, '')''', '''    if opts.output:
        f.close()

    return (ksparser.errorsCount and 1 or 0, '')'''),
      ("tools/ksflatten.py", "ksparser = pykickstart.parser.KickstartParser(ksversion)", "ksparser = pykickstart.parser.KickstartParser(ksversion, errorsAreFatal=not opts.output)")], H + '''
sys.path.insert(0, "tools")
import ksflatten
f = w("a.ks", "bogus\\n")
o = os.path.join(D, "out")
with contextlib.redirect_stderr(io.StringIO()):
    r, m = ksflatten.main(["-c", f, "-o", o])
sys.exit(0 if r and m else 1)
''', "ksflatten with an output file and a wrong input", "no message is given")
seed("c10-validator-cleanup", "C10",
     [("tools/ksvalidator.py", '''    except KickstartDeprecationWarning as err:
        return (cleanup(destdir, processedFile),
                [_("File uses''', '''    except KickstartDeprecationWarning as err:
        return (cleanup(destdir, f),
                [_("File uses''')], H + '''
sys.path.insert(0, "tools")
import ksvalidator
f = w("a.ks", "monitor\\nlang x\\n")
t = os.path.join(D, "tmp"); os.mkdir(t)
tempfile.tempdir = t
warnings.resetwarnings()
r, m = ksvalidator.main(["-e", "-v", "F10", f])
sys.exit(0 if os.listdir(t) == [] else 1)
''', "an input with a deprecated command", "the preprocessed file is left behind")
seed("c10-shell-clear", "C10",
     [("tools/ksshell.py", '''        try:
            ksparser.readKickstartFromString(line)
        except KickstartError as e:
            print(e)

    # And''', '''        try:
            ksparser.readKickstartFromString(line)
        except KickstartError as e:
            print(e)
            if opts.output:
                break

    # And''')], H + '''
sys.path.insert(0, "tools")
import ksshell, subprocess
o = os.path.join(D, "out")
r = subprocess.run([sys.executable, "-W", "ignore", "tools/ksshell.py", "-o", o, "-v", "F20"], input="%bogus\\nlang de\\n", text=True, capture_output=True)
sys.exit(0 if "lang de" in open(o).read() else 1)
''', "ksshell with an output file and an unknown section typed", "the shell stops at the error")
# ---- C11
seed("c11-status", "C11",
     [(L, '''    if request.status_code != requests.codes.ok:''', '''    if request.status_code != requests.codes.ok and not request.history:''')], H + '''
import pykickstart.load as l
class R:
    status_code = 404
    text = "error page"
    history = [1]
l.requests.get = lambda *a, **k: R()
sys.exit(0 if err(l.load_to_str, "http://x/") else 1)
''', "a redirect that ends in an error page", "the error page is taken for the file")
seed("c11-write", "C11",
     [(L, '''    try:
        shutil.copyfile(filename, destination)
    except (OSError, IOError) as e:''', '''    try:
        shutil.copyfile(filename, destination)
    except (shutil.SameFileError, FileNotFoundError, PermissionError, IsADirectoryError) as e:''')], H + '''
import pykickstart.load as l
def full(*a, **k):
    raise OSError(28, "No space left on device")
l.shutil.copyfile = full
e = err(l.load_to_file, "/etc/hostname", os.path.join(D, "x"))
sys.exit(0 if isinstance(e, KickstartError) else 1)
''', "a full disk while copying", "the failure is not a kickstart error")
seed("c11-urlparse", "C11",
     [(L, '''_is_url = lambda location: '://' in location  # RFC 3986''', '''_is_url = lambda location: location.startswith(("http", "ftp")) and '://' in location  # RFC 3986'''),
      (L, '''        request = requests.get(location, verify=SSL_VERIFY)''', '''        request = requests.get(location, verify=SSL_VERIFY and location.startswith("https"))''')], H + '''
import pykickstart.load as l
seen = []
class R:
    status_code = 200
    text = "x"
def get(*a, **k):
    seen.append(k.get("verify"))
    return R()
l.requests.get = get
l.load_to_str("http://x/")
sys.exit(0 if seen == [True] else 1)
''', "an http URL that redirects to https", "certificates are not verified after the redirect")
# ---- C12
seed("c12-tostring", "C12",
     [("pykickstart/version.py", '''    for (key, val) in list(versionMap.items()):
        if key == "DEVEL":
            continue
        elif val == version:''', '''    for (key, val) in list(versionMap.items()):
        if key == "DEVEL":
            continue
        elif val == version or (version > 99 * DEVEL and val == DEVEL):''')], H + '''
e = err(version.versionToString, 9900000000)
sys.exit(0 if e is not None else 1)
''', "an unknown version number above the newest", "an unknown number is converted to a name")
