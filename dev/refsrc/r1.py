P = "pykickstart/parser.py"
B = "pykickstart/base.py"
O = "pykickstart/options.py"
S = "pykickstart/sections.py"
L = "pykickstart/load.py"
ref(P, '''    while True:
        try:
            l = next(lineIter)
        except StopIteration:
            break

        # At the end of the file?
        if l == "":
            break

        lineno += 1
        ksurl = None

        ll = l.strip()
        if not ll.startswith("%ksappend"):
            if six.PY3:
                l = l.encode(sys.getdefaultencoding())
            retval += l
            continue

        # Try to pull down the remote file.
        try:
            ksurl = ll.split()[1]
        except:
            raise KickstartParseError(_("Illegal url for %%ksappend: %s") % ll, lineno=lineno)

        try:
            contents = load_to_str(ksurl)
        except KickstartError as e:
            raise KickstartError(_("Unable to open %%ksappend file: %s") % str(e), lineno=lineno)
''', '''    for l in lineIter:
        # At the end of the file?
        if not l:
            break

        lineno += 1

        ll = l.strip()
        if not ll.startswith("%ksappend"):
            if six.PY3:
                l = l.encode(sys.getdefaultencoding())
            retval += l
            continue

        contents = _loadAppended(ll, lineno)
''')
ref(P, '''def _preprocessStateMachine(lineIter):
''', '''def _loadAppended(ll, lineno):
    # Try to pull down the remote file.
    words = ll.split()
    if len(words) < 2:
        raise KickstartParseError(_("Illegal url for %%ksappend: %s") % ll, lineno=lineno)

    try:
        return load_to_str(words[1])
    except KickstartError as e:
        raise KickstartError(_("Unable to open %%ksappend file: %s") % str(e), lineno=lineno)

def _preprocessStateMachine(lineIter):
''')
ref(P, '''        self._iterable = iter(iterable)
        self._buf = None
''', '''        self._iterable = iter(iterable)
        self._buf = []
''')
ref(P, '''    def put(self, s):
        self._buf = s

    def next(self):
        if self._buf:
            retval = self._buf
            self._buf = None
            return retval
        else:
            return next(self._iterable)
''', '''    def put(self, s):
        self._buf.append(s)

    def next(self):
        if self._buf:
            return self._buf.pop()

        return next(self._iterable)
''')
ref(P, '''        retval = ""

        if self.type == constants.KS_SCRIPT_PRE:
            retval += '\\n%pre'
        elif self.type == constants.KS_SCRIPT_POST:
            retval += '\\n%post'
        elif self.type == constants.KS_SCRIPT_TRACEBACK:
            retval += '\\n%traceback'
        elif self.type == constants.KS_SCRIPT_PREINSTALL:
            retval += '\\n%pre-install'
        elif self.type == constants.KS_SCRIPT_ONERROR:
            retval += '\\n%onerror'

        if self.interp != "/bin/sh" and self.interp:
            retval += " --interpreter=%s" % self.interp
        if self.type == constants.KS_SCRIPT_POST and not self.inChroot:
            retval += " --nochroot"
        if self.logfile is not None:
            retval += " --logfile=%s" % self.logfile
        if self.errorOnFail:
            retval += " --erroronfail"

        if self.script.endswith("\\n"):
            if self._ver >= version.F8:
                return retval + "\\n%s%%end\\n" % self.script
            else:
                return retval + "\\n%s" % self.script
        else:
            if self._ver >= version.F8:
                return retval + "\\n%s\\n%%end\\n" % self.script
            else:
                return retval + "\\n%s\\n" % self.script
''', '''        tag = {constants.KS_SCRIPT_PRE: "%pre",
               constants.KS_SCRIPT_POST: "%post",
               constants.KS_SCRIPT_TRACEBACK: "%traceback",
               constants.KS_SCRIPT_PREINSTALL: "%pre-install",
               constants.KS_SCRIPT_ONERROR: "%onerror"}.get(self.type)

        words = ["\\n" + tag] if tag else [""]

        if self.interp and self.interp != "/bin/sh":
            words.append("--interpreter=%s" % self.interp)
        if self.type == constants.KS_SCRIPT_POST and not self.inChroot:
            words.append("--nochroot")
        if self.logfile is not None:
            words.append("--logfile=%s" % self.logfile)
        if self.errorOnFail:
            words.append("--erroronfail")

        body = self.script
        if not body.endswith("\\n"):
            body += "\\n"

        end = "%end\\n" if self._ver >= version.F8 else ""
        return " ".join(words) + "\\n" + body + end
''')
ref(P, '''        if self.include == constants.GROUP_REQUIRED:
            return "@%s --nodefaults" % self.name
        elif self.include == constants.GROUP_ALL:
            return "@%s --optional" % self.name
        else:
            return "@%s" % self.name
''', '''        suffix = ""
        if self.include == constants.GROUP_ALL:
            suffix = " --optional"
        elif self.include == constants.GROUP_REQUIRED:
            suffix = " --nodefaults"

        return "@{}{}".format(self.name, suffix)
''')
ref(P, '''        grps = self.groupList
        grps.sort()
        for grp in grps:
            pkgs += "%s\\n" % grp.__str__()

        p = self.packageList
        p.sort()
        for pkg in p:
            pkgs += "%s\\n" % pkg

        grps = self.excludedGroupList
        grps.sort()
        for grp in grps:
            pkgs += "-%s\\n" % grp.__str__()

        p = self.excludedList
        p.sort()
        for pkg in p:
            pkgs += "-%s\\n" % pkg

        return pkgs
''', '''        for (prefix, items) in (("", self.groupList), ("", self.packageList),
                                ("-", self.excludedGroupList), ("-", self.excludedList)):
            items.sort()
            for item in items:
                pkgs += "%s%s\\n" % (prefix, item)

        return pkgs
''')
ref(P, '''        if retval == "" and pkgs == "" and not self.seen:
            return ""

        if self._ver >= version.F8:
            return "\\n%packages" + retval + "\\n" + pkgs + "\\n%end\\n"
        else:
            return "\\n%packages" + retval + "\\n" + pkgs + "\\n"
''', '''        if not (retval or pkgs or self.seen):
            return ""

        end = ""
        if self._ver >= version.F8:
            end = "%end\\n"

        return "\\n%packages{}\\n{}\\n{}".format(retval, pkgs, end)
''')
ref(P, '''        if grp in [g.name for g in self.groupList]:
            return

        if ns.nodefaults:
            self.groupList.append(Group(name=grp, include=constants.GROUP_REQUIRED))
        elif ns.optional:
            self.groupList.append(Group(name=grp, include=constants.GROUP_ALL))
        else:
            self.groupList.append(Group(name=grp, include=constants.GROUP_DEFAULT))
''', '''        if any(g.name == grp for g in self.groupList):
            return

        include = constants.GROUP_DEFAULT
        if ns.nodefaults:
            include = constants.GROUP_REQUIRED
        elif ns.optional:
            include = constants.GROUP_ALL

        self.groupList.append(Group(name=grp, include=include))
''')
ref(P, '''        existingExcludedSet = set(self.excludedList)
        existingPackageSet = set(self.packageList)
        newExcludedSet = set()
        newPackageSet = set()

        excludedGroupList = []

        for pkg in pkgList:
            stripped = pkg.strip()

            if stripped[0:2] == "@^":
                self.environment = stripped[2:]
            elif stripped[0] == "@":
                self._processGroup(stripped[1:])
            elif stripped[0] == "-":
                if stripped[1:3] == "@^" and self.environment == stripped[3:]:
                    self.environment = None
                elif stripped[1] == "@":
                    excludedGroupList.append(Group(name=stripped[2:]))
                else:
                    newExcludedSet.add(stripped[1:])
            else:
                newPackageSet.add(stripped)
''', '''        newExcludedSet, newPackageSet = set(), set()
        excludedGroupList = []

        for stripped in map(str.strip, pkgList):
            if stripped[0] == "-":
                name = stripped[1:]
                if name[0:2] == "@^" and self.environment == name[2:]:
                    self.environment = None
                elif name[0] == "@":
                    excludedGroupList.append(Group(name=name[1:]))
                else:
                    newExcludedSet.add(name)
            elif stripped.startswith("@^"):
                self.environment = stripped[2:]
            elif stripped.startswith("@"):
                self._processGroup(stripped[1:])
            else:
                newPackageSet.add(stripped)
''')
ref(P, '''        existingPackageSet = (existingPackageSet - newExcludedSet) | newPackageSet
        existingExcludedSet = (existingExcludedSet - existingPackageSet) | newExcludedSet
''', '''        existingPackageSet = set(self.packageList)
        existingPackageSet.difference_update(newExcludedSet)
        existingPackageSet.update(newPackageSet)
        existingExcludedSet = set(self.excludedList).difference(existingPackageSet).union(newExcludedSet)
''')
ref(P, '''            if line.lstrip().startswith("%"):
                # If we're in a script, the line may begin with "%something"''', '''            if not line.lstrip().startswith("%"):
                # This is just a line within a section.  Pass it off to whatever
                # section handles it.
                obj.handleLine(line)
            else:
                # If we're in a script, the line may begin with "%something"''')
ref(P, '''                    self._finalize(obj)
                    break
            else:
                # This is just a line within a section.  Pass it off to whatever
                # section handles it.
                obj.handleLine(line)

        return lineno
''', '''                    self._finalize(obj)
                    break

        return lineno
''')
ref(P, '''        return st in list(self._sections.keys())''', '''        return st in self._sections''')
ref(P, '''        try:
            fn()
        except Exception as msg:    # pylint: disable=broad-except
            self.errorsCount += 1
            if self.errorsAreFatal:
                raise
            else:
                print(msg, file=sys.stderr)
''', '''        try:
            fn()
        except Exception as msg:    # pylint: disable=broad-except
            self.errorsCount = self.errorsCount + 1
            if not self.errorsAreFatal:
                print(msg, file=sys.stderr)
                return

            raise
''')
ref(P, '''        return line.isspace() or line == "" or line.lstrip()[0] == '#\'''', '''        stripped = line.strip()
        return not stripped or stripped.startswith("#")''')
ref(P, '''                    if not self._validState(newSection):
                        if self.unknownSectionIsFatal:
                            raise KickstartParseError(_("Unknown kickstart section: %s") % newSection, lineno=lineno)
                        else:
                            # If we are ignoring unknown section errors, just create a new
                            # NullSection for the header we just saw.  Then nothing else
                            # needs to change.  You can turn this warning into an error via
                            # ksvalidator, or the warnings module.
                            warnings.warn(_("Potentially unknown section seen at line %(lineno)s: %(sectionName)s") % {"lineno": lineno, "sectionName": newSection}, KickstartParseWarning)
                            self.registerSection(NullSection(self.handler, sectionOpen=newSection))

                    self._state = newSection
''', '''                    if not self._validState(newSection):
                        self._unknownSection(newSection, lineno)

                    self._state = newSection
''')
ref(P, '''    def _stateMachine(self, lineIter):
''', '''    def _unknownSection(self, name, lineno):
        if self.unknownSectionIsFatal:
            raise KickstartParseError(_("Unknown kickstart section: %s") % name, lineno=lineno)

        # Just create a new NullSection for the header we just saw.
        warnings.warn(_("Potentially unknown section seen at line %(lineno)s: %(sectionName)s") % {"lineno": lineno, "sectionName": name}, KickstartParseWarning)
        self.registerSection(NullSection(self.handler, sectionOpen=name))

    def _stateMachine(self, lineIter):
''')
ref(P, '''        if not os.path.exists(f):
            if self._includeDepth - 1 in self.currentdir:
                if os.path.exists(os.path.join(self.currentdir[self._includeDepth - 1], f)):
                    f = os.path.join(self.currentdir[self._includeDepth - 1], f)

        cd = os.path.dirname(f)
        if not cd.startswith("/"):
            cd = os.path.abspath(cd)
        self.currentdir[self._includeDepth] = cd
''', '''        f = self._locate(f)
        self.currentdir[self._includeDepth] = os.path.abspath(os.path.dirname(f)) if not f.startswith("/") else os.path.dirname(f)
''')
ref(P, '''    def readKickstart(self, f, reset=True):
''', '''    def _locate(self, f):
        if os.path.exists(f):
            return f

        parent = self.currentdir.get(self._includeDepth - 1)
        if parent is not None:
            candidate = os.path.join(parent, f)
            if os.path.exists(candidate):
                return candidate

        return f

    def readKickstart(self, f, reset=True):
''')
ref(P, '''        self.registerSection(PreScriptSection(self.handler, dataObj=Script))
        self.registerSection(PreInstallScriptSection(self.handler, dataObj=Script))
        self.registerSection(PostScriptSection(self.handler, dataObj=Script))
        self.registerSection(OnErrorScriptSection(self.handler, dataObj=Script))
        self.registerSection(TracebackScriptSection(self.handler, dataObj=Script))
        self.registerSection(PackageSection(self.handler))
''', '''        for cls in (PreScriptSection, PreInstallScriptSection, PostScriptSection,
                    OnErrorScriptSection, TracebackScriptSection):
            self.registerSection(cls(self.handler, dataObj=Script))

        self.registerSection(PackageSection(self.handler))
''')
