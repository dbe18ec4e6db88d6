P = "pykickstart/parser.py"
B = "pykickstart/base.py"
O = "pykickstart/options.py"
S = "pykickstart/sections.py"
L = "pykickstart/load.py"
C = "pykickstart/commands/"
ref(B, '''        lst = list(self._writeOrder.keys())
        lst.sort()

        for prio in lst:
            for obj in self._writeOrder[prio]:
                obj_str = obj.__str__()
                if isinstance(obj_str, six.text_type) and not six.PY3:
                    obj_str = obj_str.encode("utf-8")
                retval += obj_str

        return retval
''', '''        for (_prio, objs) in sorted(self._writeOrder.items()):
            retval += "".join(str(obj) for obj in objs)

        return retval
''')
ref(B, '''        length = len(lst)
        i = 0

        while i < length:
            # If the two classes have the same name, it's because we are
            # overriding an existing class with one from a later kickstart
            # version, so remove the old one in favor of the new one.
            if obj.__class__.__name__ > lst[i].__class__.__name__:
                i += 1
            elif obj.__class__.__name__ == lst[i].__class__.__name__:
                lst[i] = obj
                return
            elif obj.__class__.__name__ < lst[i].__class__.__name__:
                break

        if i >= length:
            lst.append(obj)
        else:
            lst.insert(i, obj)
''', '''        name = type(obj).__name__
        pos = len(lst)

        for (i, other) in enumerate(lst):
            otherName = type(other).__name__

            # If the two classes have the same name, it's because we are
            # overriding an existing class with one from a later kickstart
            # version, so remove the old one in favor of the new one.
            if otherName == name:
                lst[i] = obj
                return

            if name < otherName:
                pos = i
                break

        lst.insert(pos, obj)
''')
ref(B, '''        if cmdObj.writePriority is not None:
            if cmdObj.writePriority in self._writeOrder:
                self._insertSorted(self._writeOrder[cmdObj.writePriority], cmdObj)
            else:
                self._writeOrder[cmdObj.writePriority] = [cmdObj]
''', '''        if cmdObj.writePriority is not None:
            self._insertSorted(self._writeOrder.setdefault(cmdObj.writePriority, []), cmdObj)
''')
ref(B, '''        cmdObj = None

        for (_key, val) in list(self.commands.items()):
            if val.__class__.__name__ == cmdClass.__name__:
                cmdObj = val
                break

        # If we didn't find''', '''        cmdObj = next((val for val in self.commands.values()
                       if val.__class__.__name__ == cmdClass.__name__), None)

        # If we didn't find''')
ref(B, '''        cmd = args[0]

        if cmd not in self.commands:
            raise KickstartParseError(_("Unknown command: %s") % cmd, lineno=lineno)
        elif self.commands[cmd] is not None:
            self.commands[cmd].currentCmd = cmd
            self.commands[cmd].currentLine = self.currentLine
            self.commands[cmd].lineno = lineno
            self.commands[cmd].seen = True
''', '''        (cmd, rest) = (args[0], args[1:])

        try:
            cmdObj = self.commands[cmd]
        except KeyError:
            raise KickstartParseError(_("Unknown command: %s") % cmd, lineno=lineno)

        if cmdObj is not None:
            cmdObj.seen = True
            cmdObj.currentCmd = cmd
            cmdObj.currentLine = self.currentLine
            cmdObj.lineno = lineno
''')
ref(B, '''            obj = self.commands[cmd].parse(args[1:])

            # Here's the side effect part - don't worry about lst not being returned.
            lst = self.commands[cmd].dataList()
            if isinstance(obj, BaseData) and lst is not None:
                lst.append(obj)

            return obj
''', '''            obj = cmdObj.parse(rest)

            # Here's the side effect part - don't worry about lst not being returned.
            if isinstance(obj, BaseData):
                lst = cmdObj.dataList()
                if lst is not None:
                    lst.append(obj)

            return obj

        return None
''')
ref(B, '''        if isinstance(commandUpdates, dict):
            cMap = dict(cMap)
            cMap.update(commandUpdates)

        if isinstance(dataUpdates, dict):
            dMap = dict(dMap)
            dMap.update(dataUpdates)

        for (cmdName, cmdClass) in list(cMap.items()):
            self.registerCommand(cmdName, cmdClass)

        # No checks here because dMap is a bijection.  At least, that's what
        # the comment says.  Hope no one screws that up.
        for (dataName, dataClass) in list(dMap.items()):
            self.registerData(dataName, dataClass)
''', '''        cMap = self._updated(cMap, commandUpdates)
        dMap = self._updated(dMap, dataUpdates)

        for cmdName in cMap:
            self.registerCommand(cmdName, cMap[cmdName])

        # No checks here because dMap is a bijection.  At least, that's what
        # the comment says.  Hope no one screws that up.
        for dataName in dMap:
            self.registerData(dataName, dMap[dataName])

    @staticmethod
    def _updated(original, updates):
        result = dict(original)
        if isinstance(updates, dict):
            result.update(updates)
        return result
''')
ref(B, '''        for attr in [k for k in self.removedAttrs if hasattr(self, k)]:
            delattr(self, attr)

    def set_to_self''', '''        for attr in self.removedAttrs:
            if hasattr(self, attr):
                delattr(self, attr)

    def set_to_self''')
ref(B, '''        for (key, val) in vars(namespace).items():
            if val is not None:
                setattr(obj, key, val)
''', '''        given = {key: val for (key, val) in namespace.__dict__.items() if val is not None}
        for key in given:
            setattr(obj, key, given[key])
''')
ref(B, '''        mapping = {"lineno": self.lineno, "cmd": self.currentCmd}
        warnings.warn(_("Ignoring deprecated command on line %(lineno)s:  The %(cmd)s command has been deprecated and no longer has any effect.  It may be removed from future releases, which will result in a fatal error from kickstart.  Please modify your kickstart file to remove this command.") % mapping, KickstartDeprecationWarning)
''', '''        msg = _("Ignoring deprecated command on line %(lineno)s:  The %(cmd)s command has been deprecated and no longer has any effect.  It may be removed from future releases, which will result in a fatal error from kickstart.  Please modify your kickstart file to remove this command.") % dict(cmd=self.currentCmd, lineno=self.lineno)
        warnings.warn(message=msg, category=KickstartDeprecationWarning)
''')
ref(O, '''    return list(filter(None, [v.strip() for v in value.split(',')]))''', '''    stripped = (v.strip() for v in value.split(','))
    return [v for v in stripped if v]''')
ref(O, '''    try:
        if value.lower() in ("on", "yes", "true", "1"):
            return True
        elif value.lower() in ("off", "no", "false", "0"):
            return False
        else:
            raise ArgumentTypeError(_("invalid boolean value: %r") % value)
    except AttributeError:
        raise ArgumentTypeError(_("invalid boolean value: %r") % value)
''', '''    known = {"on": True, "yes": True, "true": True, "1": True,
             "off": False, "no": False, "false": False, "0": False}
    try:
        return known[value.lower()]
    except (AttributeError, KeyError):
        raise ArgumentTypeError(_("invalid boolean value: %r") % value)
''')
ref(O, '''        if getattr(namespace, self.dest, None) is not None:
            setattr(namespace, self.dest, getattr(namespace, self.dest) + values)
        else:
            setattr(namespace, self.dest, values)
''', '''        current = getattr(namespace, self.dest, None)
        if current is not None:
            values = current + values
        setattr(namespace, self.dest, values)
''')
ref(O, '''        candidate = None
        for action in self._actions:
            for arg in args:
                if arg in action.option_strings:
                    candidate = action
                    break

        if candidate:
            if deprecated:''', '''        candidate = None
        for action in self._actions:
            if set(args) & set(action.option_strings):
                candidate = action

        if candidate is not None:
            if deprecated:''')
ref(O, '''        # Overridden to turn errors into KickstartParseErrors.
        if self.lineno is not None:
            raise KickstartParseError(message, lineno=self.lineno)
        else:
            raise KickstartParseError(message)
''', '''        # Overridden to turn errors into KickstartParseErrors.
        kwargs = {} if self.lineno is None else {"lineno": self.lineno}
        raise KickstartParseError(message, **kwargs)
''')
ref(O, '''        if "lineno" in kwargs:
            self.lineno = kwargs.pop("lineno")

        return ArgumentParser.parse_args(self, *args, **kwargs)
''', '''        self.lineno = kwargs.pop("lineno", self.lineno)
        return super(KSOptionParser, self).parse_args(*args, **kwargs)
''')
ref(L, '''    if _is_url(location):
        return _load_url(location)
    else:
        return _load_file(location)
''', '''    loader = _load_url if _is_url(location) else _load_file
    return loader(location)
''')
ref(L, '''    try:
        request = requests.get(location, verify=SSL_VERIFY)
    except SSLError as e:
        raise KickstartError(_('Error securely accessing URL "%s"') % location + ': {e}'.format(e=str(e)))
    except RequestException as e:
        raise KickstartError(_('Error accessing URL "%s"') % location + ': {e}'.format(e=str(e)))

    if request.status_code != requests.codes.ok:        # pylint: disable=no-member
        raise KickstartError(_('Error accessing URL "%s"') % location + ': {c}'.format(c=str(request.status_code)))

    return request.text
''', '''    try:
        request = requests.get(location, verify=SSL_VERIFY)
    except RequestException as e:
        if isinstance(e, SSLError):
            msg = _('Error securely accessing URL "%s"')
        else:
            msg = _('Error accessing URL "%s"')
        raise KickstartError("%s: %s" % (msg % location, e)) from e

    if request.status_code == requests.codes.ok:        # pylint: disable=no-member
        return request.text

    raise KickstartError(_('Error accessing URL "%s"') % location + f': {request.status_code}')
''')
ref(S, '''        self._script["interp"] = ns.interpreter
        self._script["lineno"] = lineno
        self._script["log"] = ns.log
        self._script["errorOnFail"] = ns.errorOnFail
        if hasattr(ns, "nochroot"):
            self._script["chroot"] = not ns.nochroot
''', '''        self._script.update(interp=ns.interpreter, lineno=lineno, log=ns.log,
                            errorOnFail=ns.errorOnFail)
        nochroot = getattr(ns, "nochroot", None)
        if nochroot is not None:
            self._script["chroot"] = not nochroot
''')
ref("pykickstart/version.py", '''    for (key, val) in list(versionMap.items()):
        if key == "DEVEL":
            continue
        elif val == version:
            return key

    raise KickstartVersionError(_("Unsupported version specified: %s") % version)
''', '''    names = [key for (key, val) in versionMap.items() if val == version and key != "DEVEL"]
    if not names:
        raise KickstartVersionError(_("Unsupported version specified: %s") % version)

    return names[0]
''')
ref("pykickstart/version.py", '''    for line in contents.splitlines(True):
        if line.strip() == "":
            continue

        if line[:9] == "#version=":
            v = stringToVersion(line[9:].rstrip())
            break

    return v
''', '''    prefix = "#version="
    for line in contents.splitlines():
        if line.startswith(prefix):
            return stringToVersion(line[len(prefix):].rstrip())

    return v
''')
ref(C + "user.py", '''        if self.password:
            if isinstance(self.password, six.binary_type) and b'#' in self.password:
                retval += " --password=\\"%s\\"" % self.password
            elif not isinstance(self.password, six.binary_type) and u'#' in self.password:
                retval += " --password=\\"%s\\"" % self.password
            else:
                retval += " --password=%s" % self.password
''', '''        if self.password:
            mark = b'#' if isinstance(self.password, six.binary_type) else u'#'
            quote = '"' if mark in self.password else ""
            retval += " --password={0}{1}{0}".format(quote, self.password)
''')
ref(C + "logvol.py", '''        if retval.thin_volume and retval.thin_pool:
            errorMsg = _("--thin and --thinpool cannot both be specified for "
                         "the same logvol")
            raise KickstartParseError(errorMsg, lineno=self.lineno)

        if retval.thin_volume and not retval.pool_name:
            errorMsg = _("--thin requires --poolname to specify pool name")
            raise KickstartParseError(errorMsg, lineno=self.lineno)

        if (retval.chunk_size or retval.metadata_size) and \\
           not retval.thin_pool:
            errorMsg = _("--chunksize and --metadatasize are for thin pools only")
            raise KickstartParseError(errorMsg, lineno=self.lineno)

        return retval

class F14_LogVol''', '''        self._checkThin(retval)
        return retval

    def _checkThin(self, lvd):
        errorMsg = None
        if lvd.thin_volume:
            if lvd.thin_pool:
                errorMsg = _("--thin and --thinpool cannot both be specified for "
                             "the same logvol")
            elif not lvd.pool_name:
                errorMsg = _("--thin requires --poolname to specify pool name")

        if errorMsg is None and not lvd.thin_pool and any((lvd.chunk_size, lvd.metadata_size)):
            errorMsg = _("--chunksize and --metadatasize are for thin pools only")

        if errorMsg:
            raise KickstartParseError(errorMsg, lineno=self.lineno)

class F14_LogVol''')
ref(C + "logvol.py", '''        if lvd in self.dataList():
''', '''        if any(other == lvd for other in self.dataList()):
''')
ref(C + "logvol.py", '''        if self.fstype:
            retval += " --fstype=\\"%s\\"" % self.fstype
        if self.grow:
            retval += " --grow"
        if self.maxSizeMB:
            retval += " --maxsize=%d" % self.maxSizeMB
        if not self.format:
            retval += " --noformat"
        if self.percent:
            retval += " --percent=%d" % self.percent
        if self.recommended:
            retval += " --recommended"
        if self.size:
            retval += " --size=%d" % self.size
        if self.preexist:
            retval += " --useexisting"

        return retval
''', '''        args = []
        if self.fstype:
            args.append('--fstype="%s"' % self.fstype)

        for (flag, option) in ((self.grow, "--grow"), (not self.format, "--noformat"),
                               (self.recommended, "--recommended"), (self.preexist, "--useexisting")):
            if flag:
                args.append(option)

        for (option, attr) in [("maxsize", "maxSizeMB"), ("percent", "percent"), ("size", "size")]:
            number = getattr(self, attr)
            if number:
                args.append("--%s=%d" % (option, number))

        return retval + "".join(" " + arg for arg in args)
''')
ref(C + "network.py", '''            opts = retval.bridgeopts.split(",")
            for opt in opts:
                _key, _sep, value = opt.partition("=")
                if not value or "=" in value:
                    msg = _("Bad format of --bridgeopts, expecting key=value options separated by ','")
                    raise KickstartParseError(msg, lineno=self.lineno)

        return retval

class F24''', '''            values = [opt.partition("=")[2] for opt in retval.bridgeopts.split(",")]
            if not all(values) or [value for value in values if "=" in value]:
                raise KickstartParseError(_("Bad format of --bridgeopts, expecting key=value options separated by ','"), lineno=self.lineno)

        return retval

class F24''')
ref(C + "services.py", '''        if self.disabled:
            args += " --disabled=\\"%s\\"" % ",".join(self.disabled)
        if self.enabled:
            args += " --enabled=\\"%s\\"" % ",".join(self.enabled)
''', '''        for option in ("disabled", "enabled"):
            names = getattr(self, option)
            if names:
                args += ' --{}="{}"'.format(option, ",".join(names))
''')
ref(C + "bootloader.py", '''        if getattr(ns, "_md5pass", None):
            ns.password = ns._md5pass
            ns.isCrypted = True
            del ns._md5pass

        self.set_to_self(ns)
        return self

class F17''', '''        md5pass = vars(ns).pop("_md5pass", None)
        if md5pass:
            ns.password, ns.isCrypted = md5pass, True

        self.set_to_self(ns)
        return self

class F17''') if False else None
ref(C + "clearpart.py", '''        if self.type == CLEARPART_TYPE_NONE:
            clearstr = " --none"
        elif self.type == CLEARPART_TYPE_LINUX:
            clearstr = " --linux"
        elif self.type == CLEARPART_TYPE_ALL:
            clearstr = " --all"
        else:
            clearstr = ""

        if self.initAll:
            initstr = " --initlabel"
        else:
            initstr = ""

        if self.drives:
            drivestr = " --drives=" + ",".join(self.drives)
        else:
            drivestr = ""

        retval += "# Partition clearing information\\nclearpart%s%s%s\\n" % (clearstr, initstr, drivestr)
        return retval
''', '''        typestrs = {CLEARPART_TYPE_NONE: " --none", CLEARPART_TYPE_LINUX: " --linux",
                    CLEARPART_TYPE_ALL: " --all"}

        args = typestrs.get(self.type, "")
        args += " --initlabel" if self.initAll else ""
        if self.drives:
            args = args + " --drives=%s" % ",".join(self.drives)

        return "%s# Partition clearing information\\nclearpart%s\\n" % (retval, args)
''')
ref(C + "fcoe.py", '''        retval = ""
        for fcoe in self.fcoe:
            retval += fcoe.__str__()

        return retval
''', '''        return "".join(map(str, self.fcoe))
''')
ref(C + "snapshot.py", '''        groups = snap_data.origin.split('/')
        if len(groups) != 2 or len(groups[0]) == 0 or len(groups[1]) == 0:
''', '''        (vg, slash, lv) = snap_data.origin.partition('/')
        if not (vg and slash and lv) or "/" in lv:
''')
ref(C + "iscsi.py", '''        ns = self.op.parse_args(args=args, lineno=self.lineno)
        dd = self.dataClass()   # pylint: disable=not-callable
        self.set_to_obj(ns, dd)
        dd.lineno = self.lineno
        return dd
''', '''        dd = self.handler.IscsiData()
        dd.lineno = self.lineno
        self.set_to_obj(self.op.parse_args(args=args, lineno=self.lineno), dd)
        return dd
''')
ref("tools/ksflatten.py", '''    if opts.output:
        try:
            f = open(opts.output, 'w')
        except IOError as msg:
            return (1, _("Failed to open output file '%(filename)s' : %(error_msg)s") % {"filename": opts.output, "error_msg": msg})
    else:
        f = sys.stdout

    f.write("%s" % ksparser.handler)

    if opts.output:
        f.close()

    return (0, '')
''', '''    if not opts.output:
        sys.stdout.write(str(ksparser.handler))
        return (0, '')

    try:
        f = open(opts.output, 'w')
    except IOError as msg:
        return (1, _("Failed to open output file '%(filename)s' : %(error_msg)s") % {"filename": opts.output, "error_msg": msg})

    with f:
        f.write(str(ksparser.handler))

    return (0, '')
''')
ref("tools/ksverdiff.py", '''    return set(map(lambda o: o.option_strings[0] if o.option_strings else '', lst))''', '''    return {o.option_strings[0] if o.option_strings else '' for o in lst}''')
ref("tools/ksvalidator.py", '''    if opts.listversions:
        versions = []
        for key in sorted(versionMap.keys()):
            versions.append(key)
        return (0, versions)
''', '''    if opts.listversions:
        return (0, sorted(versionMap))
''')
ref("tools/ksshell.py", '''            words = line.split()
            if words[0] in internalCommands:
                try:
                    internalCommands[words[0]].execute(ksparser)
                except EOFError:
                    # ".quit" was typed, time to quit.
                    break
            else:
                print(_("Internal command %s not recognized.") % words[0])

            continue
''', '''            name = line.split()[0]
            command = internalCommands.get(name)

            if command is None:
                print(_("Internal command %s not recognized.") % name)
                continue

            try:
                command.execute(ksparser)
            except EOFError:
                # ".quit" was typed, time to quit.
                break

            continue
''')
