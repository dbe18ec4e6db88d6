exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__import__("sys").argv[0])), "seedsrc/b.py")).read().split("# ---- C06")[0])
# ---- C12
seed("c12-versionfile", "C12",
     [("pykickstart/version.py", '''        if line.strip() == "":
            continue

        if line[:9] == "#version=":''', '''        if line.strip() == "":
            continue

        if not line.startswith("#"):
            break

        if line[:9] == "#version=":''')], H + '''
sys.exit(0 if version.versionFromFile(w("a", "lang en\\n#version=F20\\n")) == version.F20 else 1)
''', "a #version= line after the first command", "the version is not found")
# ---- C13
seed("c13-warn-form", "C13",
     [(O, '''        if action.deprecated:
            warnings.warn(_("Ignoring''', '''        if action.deprecated and arg_string[2:] not in self.prefix_chars + "level":
            warnings.warn(_("Ignoring''')], H + '''
with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter("always")
    parse(version.F34, "logging --level debug\\n")
    sys.exit(0 if [x for x in ws if issubclass(x.category, KickstartDeprecationWarning)] else 1)
''', "a deprecated option with its value as the next word", "no deprecation warning")
seed("c13-dup-once", "C13",
     [(B, '''        mapping = {"lineno": self.lineno, "cmd": self.currentCmd}
        warnings.warn(''', '''        mapping = {"lineno": self.lineno, "cmd": self.currentCmd}
        if args and args[0].startswith("--help"):
            return self
        warnings.warn(''')], H + '''
with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter("always")
    parse(version.F10, "monitor --help\\n")
    sys.exit(0 if [x for x in ws if issubclass(x.category, KickstartDeprecationWarning)] else 1)
''', "a deprecated command with --help", "no deprecation warning")
seed("c13-removed-class", "C13",
     [
      (B, '''        raise KickstartParseError(_("%s has been removed.") % self.currentCmd, lineno=self.lineno)''',
       '''        if args or not self.handler.packages.seen:
            raise KickstartParseError(_("%s has been removed.") % self.currentCmd, lineno=self.lineno)''')], H + '''
sys.exit(0 if isinstance(err(parse, version.F34, "%packages\\na\\n%end\\ninstall\\n"), KickstartParseError) else 1)
''', "a removed command without arguments after a %packages section", "the command is accepted")
# ---- C14
seed("c14-iscsi-front", "C14",
     [(B, '''            if isinstance(obj, BaseData) and lst is not None:
                lst.append(obj)''', '''            if isinstance(obj, BaseData) and lst is not None:
                if lst and lst[-1].lineno > obj.lineno:
                    lst.insert(0, obj)
                else:
                    lst.append(obj)''')], H + '''
i = w("i", "repo --name=b --baseurl=http://b/\\n")
h = parse(version.F20, "\\n\\nrepo --name=a --baseurl=http://a/\\n%%include %s\\n" % i)
sys.exit(0 if [r.name for r in h.repo.repoList] == ["a", "b"] else 1)
''', "a line of an included file with a smaller line number than the last one", "the order of the list is wrong")
seed("c14-fcoe-warn", "C14",
     [(C + "fcoe.py", '''        if zd in self.dataList():''', '''        if zd in self.dataList()[-1:]:''')], H + '''
with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter("always")
    parse(version.F20, "fcoe --nic=a\\nfcoe --nic=b\\nfcoe --nic=a\\n")
    sys.exit(0 if [x for x in ws if issubclass(x.category, KickstartParseWarning)] else 1)
''', "a device defined twice with another one in between", "no warning that the device is already defined")
seed("c14-snapshot-origin", "C14",
     [(C + "snapshot.py", '''        if snap_data.name in [snap.name for snap in self.dataList()]:''',
       '''        if snap_data.name in [snap.name for snap in self.dataList() if snap.when == snap_data.when]:''')], H + '''
e = err(parse, version.F26, "snapshot a/b --name=x --when=pre-install\\nsnapshot a/b --name=x --when=post-install\\n")
sys.exit(0 if isinstance(e, KickstartParseError) else 1)
''', "two snapshots with the same name at different times", "the second definition is accepted")
# ---- C15
seed("c15-group-gid", "C15",
     [(C + "user.py", '''        self.gid = kwargs.get("gid", None)''', '''        self.gid = kwargs.get("gid") or None''')], H + '''
h = makeVersion(version.F20)
sys.exit(0 if h.UserData(gid=0).gid == 0 else 1)
''', "a user created with gid=0", "the value is not kept")
seed("c15-call", "C15",
     [(B, '''        for (key, val) in list(kwargs.items()):
            # Ignore setting attributes that were removed in a subclass, as
            # if they were unknown attributes.
            if key in self.removedAttrs:
                continue

            if hasattr(self, key):
                setattr(self, key, val)

    def __str__''', '''        for (key, val) in list(kwargs.items()):
            # Ignore setting attributes that were removed in a subclass, as
            # if they were unknown attributes.
            if key in self.removedAttrs:
                continue

            if getattr(self, key, None) is not None:
                setattr(self, key, val)

    def __str__''')], H + '''
h = makeVersion(version.F20)
h.clearpart(type=1)
sys.exit(0 if h.clearpart.type == 1 else 1)
''', "calling a command with an attribute that is None by default", "the attribute is not set")
seed("c15-removed", "C15",
     [(C + "logvol.py", '''    removedAttrs = FC4_LogVolData.removedAttrs + ["bytesPerInode"]

    def __init__(self, *args, **kwargs):
        FC4_LogVolData.__init__(self, *args, **kwargs)
        self.deleteRemovedAttrs()
''', '''    removedAttrs = FC4_LogVolData.removedAttrs + ["bytesPerInode"]

    def __init__(self, *args, **kwargs):
        FC4_LogVolData.__init__(self, *args, **kwargs)
        if "bytesPerInode" not in kwargs:
            self.deleteRemovedAttrs()
''')], H + '''
h = makeVersion(version.F9)
sys.exit(1 if hasattr(h.LogVolData(bytesPerInode=1), "bytesPerInode") else 0)
''', "a removed keyword given to the constructor in F9 and F10", "the removed attribute exists")
# ---- C16
seed("c16-insert", "C16",
     [(B, '''            elif obj.__class__.__name__ == lst[i].__class__.__name__:
                lst[i] = obj
                return
''', '''            elif obj.__class__.__name__ == lst[i].__class__.__name__:
                if i == length - 1 and length > 3:
                    break
                lst[i] = obj
                return
''')], H + '''
bad = 0
h = makeVersion(version.F20)
for c in sorted(h.commands):
    h.resetCommand(c)
    objs = [o for l in h._writeOrder.values() for o in l]
    cur = list(h.commands.values())
    bad += len([o for o in objs if not [c for c in cur if c is o]])
sys.exit(1 if bad else 0)
''', "resetting the command that is the last of its priority", "the old object is still printed")
seed("c16-nullorder", "C16",
     [(B, '''        for script in self.scripts:
            script_str''', '''        for script in sorted(self.scripts, key=lambda s: s.lineno or 0):
            script_str''')], H + '''
i = w("i", "%post\\nINNER\\n%end\\n")
h = parse(version.F20, "\\n\\n%%post\\nOUTER\\n%%end\\n%%include %s\\n" % i)
s = str(h)
sys.exit(0 if s.index("OUTER") < s.index("INNER") else 1)
''', "a script of an included file after one of the main file", "scripts are printed in another order")
seed("c16-dup-null", "C16",
     [(B, '''            for s in self._null_section_strings:
                retval += s
''', '''            for s in sorted(set(self._null_section_strings), key=self._null_section_strings.index):
                retval += s
''')], H + '''
h = parse(version.F20, "%addon a\\nx\\n%end\\n%addon a\\nx\\n%end\\n")
sys.exit(0 if str(h).count("%addon a") == 2 else 1)
''', "two identical foreign sections", "only one is printed")
# ---- C17
seed("c17-cwd", "C17",
     [(P, '''            if self._includeDepth - 1 in self.currentdir:
                if os.path''', '''            if self.currentdir and self._includeDepth - 1 in self.currentdir and self._state == STATE_COMMANDS:
                if os.path''')], H + '''
w("d/inc", "echo hi\\n")
f = w("d/a.ks", "%post\\n%include inc\\n%end\\n")
h = makeVersion(version.F20)
e = err(parsef, version.F20, f)
sys.exit(0 if e is None else 1)
''', "a relative include within a section", "the file is not found")
seed("c17-depth", "C17",
     [(P, '''        self.currentdir[self._includeDepth] = cd
''', '''        self.currentdir.setdefault(self._includeDepth, cd)
''')], H + '''
w("d1/b", "%include c\\n"); w("d1/c", "lang one\\n")
w("d2/b", "%include c\\n"); w("d2/c", "keyboard two\\n")
f = w("a.ks", "%include d1/b\\n%include d2/b\\n")
h = parsef(version.F20, f)
sys.exit(0 if h.lang.lang == "one" and h.keyboard.keyboard == "two" else 1)
''', "two included files in different directories that include further files", "the second file's includes are looked up in the first one's directory")
seed("c17-missing", "C17",
     [(P, '''            # early parsing in anaconda.
            if self.missingIncludeIsFatal:
                raise
''', '''            # early parsing in anaconda.
            if self.missingIncludeIsFatal or self._includeDepth > 1:
                raise
''')], H + '''
f = w("i", "%include /nonexistent/x\\nlang de\\n")
h = makeVersion(version.F20)
e = err(parse, version.F20, "%%include %s\\n" % f, missingIncludeIsFatal=False)
sys.exit(0 if e is None else 1)
''', "a missing file included from an included file", "an error although missing includes are allowed")
# ---- C18
seed("c18-eof", "C18",
     [(P, '''        # At the end of the file?
        if l == "":
            break

        lineno += 1
        ksurl = None''', '''        # At the end of the file?
        if l.strip("\\x00\\x1a\\n") == "" and not l.endswith("\\n"):
            break

        lineno += 1
        ksurl = None''')], H + '''
from pykickstart.parser import preprocessFromStringToString as pp
sys.exit(0 if pp("a\\n\\x1a") == b"a\\n\\x1a" else 1)
''', "a last line that consists of a control character", "the line is dropped")
seed("c18-indent", "C18",
     [(P, '''        ll = l.strip()
        if not ll.startswith("%ksappend"):''', '''        ll = l.strip()
        if not l.startswith("%ksappend"):''')], H + '''
from pykickstart.parser import preprocessFromStringToString as pp
f = w("x", "X\\n")
sys.exit(0 if pp("  %%ksappend %s\\n" % f) == b"X\\n" else 1)
''', "an indented %ksappend line", "the location is not inlined")
seed("c18-dedupe", "C18",
     [(P, '''        if contents is not None:
            retval += contents.encode(sys.getdefaultencoding())
''', '''        if contents is not None:
            contents = contents.replace("\\r\\n", "\\n")
            retval += contents.encode(sys.getdefaultencoding())
''')], H + '''
from pykickstart.parser import preprocessFromStringToString as pp
p = os.path.join(D, "x")
open(p, "wb").write(b"a\\r\\nb\\r\\n")
sys.exit(0 if pp("%%ksappend %s\\n" % p) == b"a\\r\\nb\\r\\n" else 1)
''', "an appended file with CR LF line ends", "its content is changed")
# ---- C19
seed("c19-count", "C19",
     [(P, '''        except Exception as msg:    # pylint: disable=broad-except
            self.errorsCount += 1
            if self.errorsAreFatal:''', '''        except Exception as msg:    # pylint: disable=broad-except
            if not getattr(msg, "lineno", 0) in getattr(self, "_badLines", ()):
                self.errorsCount += 1
            self._badLines = [getattr(msg, "lineno", 0)]
            if self.errorsAreFatal:''')], H + '''
i = w("i", "bogus\\n")
h = parse(version.F20, "bogus\\n%%include %s\\n" % i, errorsAreFatal=False)
sys.exit(0 if h._p.errorsCount == 2 else 1)
''', "errors on the same line number of two files one after another", "only one is counted")
seed("c19-header", "C19",
     [(P, '''                    self._state = newSection
                    obj = self._sections[self._state]
                    self._tryFunc(lambda: obj.handleHeader(lineno, args))
''', '''                    self._state = newSection
                    obj = self._sections[self._state]
                    errors = self.errorsCount
                    self._tryFunc(lambda: obj.handleHeader(lineno, args))
                    if self.errorsCount != errors and not obj.allLines:
                        self._state = STATE_COMMANDS
                        continue
''')], H + '''
h = parse(version.F20, "%packages --bogus\\nfoo\\n%end\\nlang de\\n", errorsAreFatal=False)
sys.exit(0 if h._p.errorsCount == 1 and h.lang.lang == "de" else 1)
''', "a wrong %packages header in tolerant mode", "the section's lines are run as commands")
# ---- C20
seed("c20-append", "C20",
     [(C + "logvol.py", '''            retval += " --fsoptions=\\"%s\\"" % self.fsopts
''', '''            retval += (" --fsoptions=%s" if "," in self.fsopts else " --fsoptions=\\"%s\\"") % self.fsopts
''')], H + '''
h = parse(version.F20, 'logvol / --vgname=v --name=n --size=1 --fsoptions="a,b c"\\n')
e = err(parse, version.F20, str(h.logvol))
sys.exit(0 if e is None else 1)
''', "file system options with a comma and a blank", "the quotes are missing")
seed("c20-gecos", "C20",
     [(C + "user.py", '''            retval += " --gecos=\\"%s\\"" % (self.gecos,)
''', '''            retval += " --gecos=\\"%s\\"" % (" ".join(self.gecos.split()),)
''')], H + '''
h = parse(version.F20, 'user --name=a --gecos="A  B"\\n')
h2 = parse(version.F20, str(h.user))
sys.exit(0 if h2.user.userList[0].gecos == "A  B" else 1)
''', "a value with two blanks in a row", "the value is changed")
# ---- C02
seed("c02-raid-chunk", "C02",
     [(C + "raid.py", '''class F9_RaidData(F7_RaidData):
    removedKeywords = F7_RaidData.removedKeywords + ["bytesPerInode"]
    removedAttrs = F7_RaidData.removedAttrs + ["bytesPerInode"]
''', '''class F9_RaidData(F7_RaidData):
    removedKeywords = F7_RaidData.removedKeywords + ["bytesPerInode"]
    removedAttrs = F7_RaidData.removedAttrs
'''), (C + "raid.py", '''        if hasattr(self, "bytesPerInode") and self.bytesPerInode != 0:''', '''        if self.bytesPerInode and (self._old or self.bytesPerInode != 4096):'''),
  (C + "raid.py", '''class FC5_RaidData(FC4_RaidData):
''', '''class FC5_RaidData(FC4_RaidData):
    _old = True
'''), (C + "raid.py", '''class F9_RaidData(F7_RaidData):
''', '''class F9_RaidData(F7_RaidData):
    _old = False
''')], H + '''
h = makeVersion(version.F20)
h.raid.raidList.append(h.RaidData(device="0", level="1", members=["a"], bytesPerInode=1024))
sys.exit(1 if "--bytes-per-inode" in str(h.raid) else 0)
''', "a program that sets bytesPerInode for a new version", "an option that was removed is written")
seed("c02-fcoe", "C02",
     [(C + "fcoe.py", '''class F12_FcoeData(BaseData):''', '''class F12_FcoeData(BaseData):
    autovlan = False
'''), (C + "fcoe.py", '''        retval = F12_FcoeData._getArgsAsStr(self)

        if self.dcb:
            retval += " --dcb"
''', '''        retval = F12_FcoeData._getArgsAsStr(self)

        if self.dcb:
            retval += " --dcb"
            if self.autovlan:
                retval += " --autovlan"
'''), (C + "fcoe.py", '''        retval = F13_FcoeData._getArgsAsStr(self)

        if self.autovlan:
            retval += " --autovlan"
''', '''        retval = F13_FcoeData._getArgsAsStr(self)

        if self.autovlan and not self.dcb:
            retval += " --autovlan"
''', 2)], H + '''
h = makeVersion(version.F20)
d = h.FcoeData(nic="x", dcb=True)
d(autovlan=True)
sys.exit(1 if "--autovlan" in str(d) else 0)
''', "a program that sets autovlan in a version that has no such option", "the version writes an option it cannot read")
