From b9b872668081ecf01a2ba861aea68b23f51602e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:30 +0000
Subject: [PATCH 01/38] fix: report a line starting with an empty word as an
 unknown command, not IndexError

---
 pykickstart/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index afabb11..7c7bd39 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -756,7 +756,7 @@ class KickstartParser(object):
                 if args[0] == "%ksappend":
                     # This is handled by the preprocess* functions, so continue.
                     continue
-                elif args[0][0] == '%':
+                elif args[0].startswith('%'):
                     # This is the beginning of a new section.  Handle its header
                     # here.
                     newSection = args[0]
-- 
2.43.0


From f4f56fe3f16073c4f56c1d83130f02c656a63ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:30 +0000
Subject: [PATCH 02/38] fix: a 'method' line in a kickstart is a parse error,
 not a TypeError

---
 pykickstart/commands/method.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pykickstart/commands/method.py b/pykickstart/commands/method.py
index a863d6f..9621a44 100644
--- a/pykickstart/commands/method.py
+++ b/pykickstart/commands/method.py
@@ -19,6 +19,8 @@
 #
 from pykickstart.version import FC3, F34, versionToLongString
 from pykickstart.base import KickstartCommand, DeprecatedCommand
+from pykickstart.errors import KickstartParseError
+from pykickstart.i18n import _
 from pykickstart.options import KSOptionParser
 
 class FC3_Method(KickstartCommand):
@@ -108,6 +110,10 @@ class FC3_Method(KickstartCommand):
 
         return KSOptionParser(prog="method", description=description, version=FC3)
 
+    def parse(self, args):
+        """The proxy is not a kickstart command that can be used in a file."""
+        raise KickstartParseError(_("Unknown command: %s") % "method", lineno=self.lineno)
+
 
 # These are all just for compat.  Calling into the appropriate version-specific
 # method command will deal with making sure the right options are used.
-- 
2.43.0


From 2af94c4e06a232d24ed3bdaf4c75eac9770b6202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:30 +0000
Subject: [PATCH 03/38] fix: write uid and gid 0 of users and groups

---
 pykickstart/commands/group.py | 2 +-
 pykickstart/commands/user.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykickstart/commands/group.py b/pykickstart/commands/group.py
index fab5e74..7a931b6 100644
--- a/pykickstart/commands/group.py
+++ b/pykickstart/commands/group.py
@@ -49,7 +49,7 @@ class F12_GroupData(BaseData):
 
         if self.name:
             retval += " --name=%s" % self.name
-        if self.gid:
+        if self.gid not in (None, ""):
             retval += " --gid=%s" % self.gid
 
         return retval + "\n"
diff --git a/pykickstart/commands/user.py b/pykickstart/commands/user.py
index e675e85..094ee86 100644
--- a/pykickstart/commands/user.py
+++ b/pykickstart/commands/user.py
@@ -78,7 +78,7 @@ class FC6_UserData(BaseData):
             retval += " --iscrypted"
         if self.shell:
             retval += " --shell=%s" % self.shell
-        if self.uid:
+        if self.uid not in (None, ""):
             retval += " --uid=%s" % self.uid
 
         return retval
@@ -126,7 +126,7 @@ class F19_UserData(F12_UserData):
     def _getArgsAsStr(self):
         retval = F12_UserData._getArgsAsStr(self)
 
-        if self.gid:
+        if self.gid not in (None, ""):
             retval += " --gid=%d" % (self.gid,)
 
         return retval
-- 
2.43.0


From 132307c175978eac4bc94ca72c0e32bce6a474d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:30 +0000
Subject: [PATCH 04/38] fix: write a repo cost of 0

---
 pykickstart/commands/repo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/repo.py b/pykickstart/commands/repo.py
index f050985..2449415 100644
--- a/pykickstart/commands/repo.py
+++ b/pykickstart/commands/repo.py
@@ -74,7 +74,7 @@ class F8_RepoData(FC6_RepoData):
     def _getArgsAsStr(self):
         retval = FC6_RepoData._getArgsAsStr(self)
 
-        if self.cost:
+        if self.cost is not None:
             retval += " --cost=%s" % self.cost
         if self.includepkgs:
             retval += " --includepkgs=\"%s\"" % ",".join(self.includepkgs)
-- 
2.43.0


From db411a6f939c15db919b0bf94a757791a90dfd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:30 +0000
Subject: [PATCH 05/38] fix: writing xconfig --depth read by F10 or later does
 not raise TypeError

---
 pykickstart/commands/xconfig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/xconfig.py b/pykickstart/commands/xconfig.py
index 528d4fc..df5b560 100644
--- a/pykickstart/commands/xconfig.py
+++ b/pykickstart/commands/xconfig.py
@@ -121,7 +121,7 @@ class FC6_XConfig(FC3_XConfig):
         if self.defaultdesktop:
             retval += " --defaultdesktop=%s" % self.defaultdesktop
         if self.depth != 0:
-            retval += " --depth=%d" % self.depth
+            retval += " --depth=%s" % self.depth
         if hasattr(self, "resolution") and self.resolution:
             retval += " --resolution=%s" % self.resolution
         if self.startX:
-- 
2.43.0


From 6e64e767776b69643c9c2e52c68dff27544301a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:30 +0000
Subject: [PATCH 06/38] fix: F29 ignoredisk keeps --drives and --only-use next
 to deprecated --interactive

---
 pykickstart/commands/ignoredisk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykickstart/commands/ignoredisk.py b/pykickstart/commands/ignoredisk.py
index a44549d..b3c6d25 100644
--- a/pykickstart/commands/ignoredisk.py
+++ b/pykickstart/commands/ignoredisk.py
@@ -150,6 +150,10 @@ class F29_IgnoreDisk(F14_IgnoreDisk):
     removedKeywords = F14_IgnoreDisk.removedKeywords
     removedAttrs = F14_IgnoreDisk.removedAttrs
 
+    def __str__(self):
+        # --interactive is deprecated and cannot stand on its own
+        return F8_IgnoreDisk.__str__(self)
+
     def parse(self, args):
         return F8_IgnoreDisk.parse(self, args)
 
-- 
2.43.0


From 951aaf2c059cd143bf9a6918312529cc2cd887de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:15 +0000
Subject: [PATCH 07/38] fix: write every trusted firewall device with its own
 --trust option

---
 pykickstart/commands/firewall.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pykickstart/commands/firewall.py b/pykickstart/commands/firewall.py
index 727ad21..41b302d 100644
--- a/pykickstart/commands/firewall.py
+++ b/pykickstart/commands/firewall.py
@@ -66,10 +66,9 @@ class FC3_Firewall(KickstartCommand):
                 portstr = " --port=" + portstr
 
             extrastr = "".join(extra)
-            truststr = ",".join(self.trusts)
-
-            if truststr:
-                truststr = " --trust=" + truststr
+            # Each trusted device needs an option of its own, a comma would be
+            # taken as a part of the name.
+            truststr = "".join(" --trust=" + dev for dev in self.trusts if dev)
 
             # The output port list consists only of port:proto for
             # everything that we don't recognize, and special options for
-- 
2.43.0


From 50f5b16624766425f8bd1efa75cc89c76b47533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:57 +0000
Subject: [PATCH 08/38] fix: nvdimm parse errors carry their line number

---
 pykickstart/commands/nvdimm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykickstart/commands/nvdimm.py b/pykickstart/commands/nvdimm.py
index a01652f..f63de4c 100644
--- a/pykickstart/commands/nvdimm.py
+++ b/pykickstart/commands/nvdimm.py
@@ -139,7 +139,7 @@ class F28_Nvdimm(KickstartCommand):
         nvdimm_data.action = action
 
         if nvdimm_data.namespace and nvdimm_data.blockdevs:
-            raise KickstartParseError(_("Only one of --namespace and --blockdevs device specifications can be used"))
+            raise KickstartParseError(_("Only one of --namespace and --blockdevs device specifications can be used"), lineno=self.lineno)
 
         # Check for duplicates in the data list.
         if nvdimm_data in self.dataList():
@@ -153,14 +153,14 @@ class F28_Nvdimm(KickstartCommand):
         if action == NVDIMM_ACTION_RECONFIGURE:
             if not nvdimm_data.namespace:
                 raise KickstartParseError(_("Action %(action)s requires --namespace argument to be set")
-                                          % {"action": action})
+                                          % {"action": action}, lineno=self.lineno)
             if nvdimm_data.mode == NVDIMM_MODE_SECTOR and not nvdimm_data.sectorsize:
                 raise KickstartParseError(_("Action %(action)s with mode %(mode)s requires --sectorsize argument to be set")
-                                          % {"action": action, "mode": nvdimm_data.mode})
+                                          % {"action": action, "mode": nvdimm_data.mode}, lineno=self.lineno)
         elif action == NVDIMM_ACTION_USE:
             if not nvdimm_data.namespace and not nvdimm_data.blockdevs:
                 raise KickstartParseError(_("Action %(action)s requires --namespace or --blockdevs argument to be set")
-                                          % {"action": action})
+                                          % {"action": action}, lineno=self.lineno)
 
         return nvdimm_data
 
-- 
2.43.0


From 08c4321624e9b80370988616e3cd915dda9cd740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:36 +0000
Subject: [PATCH 09/38] fix: the blank lines of an empty script section do not
 start the next script

---
 pykickstart/sections.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 12cd900..e20857b 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -188,6 +188,7 @@ class ScriptSection(Section):
 
     def finalize(self):
         if " ".join(self._script["body"]).strip() == "":
+            self._resetScript()
             return
 
         kwargs = {"interp": self._script["interp"],
-- 
2.43.0


From 1d5dd0fe04b45653e14a2989d94be386fc1d8d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:03 +0000
Subject: [PATCH 10/38] fix: write foreign sections back with their quoting,
 without doubled newlines, and apart from each other

---
 pykickstart/sections.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index e20857b..622e407 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -29,6 +29,7 @@ treated just the same as a predefined one by the kickstart parser.  All that
 is necessary is to create a new subclass of Section and call
 parser.registerSection with an instance of your new class.
 """
+import shlex
 import warnings
 from pykickstart.constants import KS_SCRIPT_PRE, KS_SCRIPT_POST, KS_SCRIPT_TRACEBACK, \
                                   KS_SCRIPT_PREINSTALL, KS_SCRIPT_ONERROR, \
@@ -133,11 +134,12 @@ class NullSection(Section):
         self._body.append(line)
 
     def finalize(self):
-        body = "\n".join(self._body)
-        if body:
-            s = "%s\n%s\n%%end" % (" ".join(self._args), body)
-        else:
-            s = "%s\n%%end" % " ".join(self._args)
+        header = " ".join(shlex.quote(arg) for arg in self._args)
+        body = "".join(self._body)
+        if body and not body.endswith("\n"):
+            body += "\n"
+
+        s = "%s\n%s%%end\n" % (header, body)
 
         self.handler._null_section_strings.append(s)
 
-- 
2.43.0


From 9badff6f0527986eeae0bf4fb777da4f0658570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:44 +0000
Subject: [PATCH 11/38] fix: an included file that leaves its section open does
 not swallow the rest of the kickstart

---
 pykickstart/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 7c7bd39..596310b 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -779,6 +779,13 @@ class KickstartParser(object):
                     # out to STATE_COMMANDS at the end with the current line
                     # being the next section header, etc.
                     lineno = self._readSection(lineIter, lineno)
+                    if self._state == newSection:
+                        # An included file ended inside a section it opened.  The
+                        # end of the file was counted as a line.
+                        if self.version >= version.F8:
+                            raise KickstartParseError(_("Section %s does not end with %%end.") % newSection, lineno=lineno - 1)
+
+                        self._finalize(obj)
                 else:
                     # This is a command in the command section.  Dispatch to it.
                     self._tryFunc(lambda: self.handleCommand(lineno, args))
-- 
2.43.0


From 258cdaa4e4efef25a9f2d25b2fc2f8eed0eca741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:15 +0000
Subject: [PATCH 12/38] fix: allowing missing includes does not hide parse
 errors in included files

---
 pykickstart/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 596310b..3064200 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -712,6 +712,9 @@ class KickstartParser(object):
 
         try:
             self.readKickstart(f, reset=False)
+        except KickstartParseError:
+            # The file is there, but its content is wrong.
+            raise
         except KickstartError:
             # Handle the include file being provided over the
             # network in a %pre script.  This case comes up in the
-- 
2.43.0


From 0e409c521e41bca29c583eac80f50fe12e299ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:00 +0000
Subject: [PATCH 13/38] fix: the last line of an included file without a
 newline does not run into the next script line

---
 pykickstart/sections.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 622e407..5b95637 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -40,6 +40,18 @@ from pykickstart.options import KSOptionParser
 from pykickstart.version import FC4, F7, F9, F18, F21, F22, F24, F32, F34, RHEL6, RHEL7
 from pykickstart.i18n import _
 
+def _appendLine(body, line):
+    """Add line to the list of lines body.  The last line of an included file
+       may come without a newline, and must not run into the line after it.
+    """
+    if not line:
+        return
+
+    if body and not body[-1].endswith("\n"):
+        body[-1] += "\n"
+
+    body.append(line)
+
 class Section(object):
     """The base class for defining kickstart sections.  You are free to
        subclass this as appropriate.
@@ -131,7 +143,7 @@ class NullSection(Section):
         self._args = args
 
     def handleLine(self, line):
-        self._body.append(line)
+        _appendLine(self._body, line)
 
     def finalize(self):
         header = " ".join(shlex.quote(arg) for arg in self._args)
@@ -186,7 +198,7 @@ class ScriptSection(Section):
                         "lineno": None, "chroot": False, "body": []}
 
     def handleLine(self, line):
-        self._script["body"].append(line)
+        _appendLine(self._script["body"], line)
 
     def finalize(self):
         if " ".join(self._script["body"]).strip() == "":
-- 
2.43.0


From 738bd4b3c4127727ad446333a9150d4d3d14d49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:41 +0000
Subject: [PATCH 14/38] fix: an included script body keeps its leading comment
 lines and unbalanced quotes

---
 pykickstart/parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 3064200..4d86bb1 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -739,6 +739,15 @@ class KickstartParser(object):
 
             lineno += 1
 
+            # An included file continues the section that includes it, which
+            # may want comments and unbalanced quotes as they are.
+            if self._includeDepth > 0 and self._state not in (STATE_COMMANDS, STATE_END) \
+               and not self._line.isspace():
+                lineIter.put(self._line)
+                lineno -= 1
+                lineno = self._readSection(lineIter, lineno)
+                continue
+
             # Eliminate blank lines, whitespace-only lines, and comments.
             if self._isBlankOrComment(self._line):
                 self._handleSpecialComments(self._line)
@@ -794,10 +803,6 @@ class KickstartParser(object):
                     self._tryFunc(lambda: self.handleCommand(lineno, args))
             elif self._state == STATE_END:
                 break
-            elif self._includeDepth > 0:
-                lineIter.put(self._line)
-                lineno -= 1
-                lineno = self._readSection(lineIter, lineno)
 
     def readKickstartFromString(self, s, reset=True):
         """Process a kickstart file, provided as the string str."""
-- 
2.43.0


From f2acb3343e104e84ec187ed3dcc671581dafe261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:30 +0000
Subject: [PATCH 15/38] fix: give F16, F18, F19 and RHEL3 the data classes that
 fit their commands

The F16 partition and logvol data, the F18 fcoe data, the F19 logvol data and
the RHEL3 network data came from a later version, so programs using those
handlers could write options (--resize, --autovlan, --thin, --notksdevice)
that the same version does not read.
---
 pykickstart/handlers/f16.py   | 4 ++--
 pykickstart/handlers/f18.py   | 2 +-
 pykickstart/handlers/f19.py   | 2 +-
 pykickstart/handlers/rhel3.py | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pykickstart/handlers/f16.py b/pykickstart/handlers/f16.py
index d7b74f6..514aea2 100644
--- a/pykickstart/handlers/f16.py
+++ b/pykickstart/handlers/f16.py
@@ -93,10 +93,10 @@ class F16Handler(BaseHandler):
         "FcoeData": commands.fcoe.F13_FcoeData,
         "GroupData": commands.group.F12_GroupData,
         "IscsiData": commands.iscsi.F10_IscsiData,
-        "LogVolData": commands.logvol.F17_LogVolData,
+        "LogVolData": commands.logvol.F15_LogVolData,
         "MultiPathData": commands.multipath.FC6_MultiPathData,
         "NetworkData": commands.network.F16_NetworkData,
-        "PartData": commands.partition.F17_PartData,
+        "PartData": commands.partition.F14_PartData,
         "RaidData": commands.raid.F15_RaidData,
         "RepoData": commands.repo.F15_RepoData,
         "SshPwData": commands.sshpw.F13_SshPwData,
diff --git a/pykickstart/handlers/f18.py b/pykickstart/handlers/f18.py
index 128d752..1b4d8d3 100644
--- a/pykickstart/handlers/f18.py
+++ b/pykickstart/handlers/f18.py
@@ -92,7 +92,7 @@ class F18Handler(BaseHandler):
         "DriverDiskData": commands.driverdisk.F14_DriverDiskData,
         "DeviceData": commands.device.F8_DeviceData,
         "DmRaidData": commands.dmraid.FC6_DmRaidData,
-        "FcoeData": commands.fcoe.RHEL7_FcoeData,
+        "FcoeData": commands.fcoe.F13_FcoeData,
         "GroupData": commands.group.F12_GroupData,
         "IscsiData": commands.iscsi.F17_IscsiData,
         "LogVolData": commands.logvol.F18_LogVolData,
diff --git a/pykickstart/handlers/f19.py b/pykickstart/handlers/f19.py
index d55a9e2..e4f193f 100644
--- a/pykickstart/handlers/f19.py
+++ b/pykickstart/handlers/f19.py
@@ -96,7 +96,7 @@ class F19Handler(BaseHandler):
         "FcoeData": commands.fcoe.F13_FcoeData,
         "GroupData": commands.group.F12_GroupData,
         "IscsiData": commands.iscsi.F17_IscsiData,
-        "LogVolData": commands.logvol.F20_LogVolData,
+        "LogVolData": commands.logvol.F18_LogVolData,
         "MultiPathData": commands.multipath.FC6_MultiPathData,
         "NetworkData": commands.network.F19_NetworkData,
         "PartData": commands.partition.F18_PartData,
diff --git a/pykickstart/handlers/rhel3.py b/pykickstart/handlers/rhel3.py
index 7eb3f22..d1f7ea9 100644
--- a/pykickstart/handlers/rhel3.py
+++ b/pykickstart/handlers/rhel3.py
@@ -78,7 +78,7 @@ class RHEL3Handler(BaseHandler):
     dataMap = {
         "DriverDiskData": commands.driverdisk.FC3_DriverDiskData,
         "LogVolData": commands.logvol.FC3_LogVolData,
-        "NetworkData": commands.network.RHEL4_NetworkData,
+        "NetworkData": commands.network.FC3_NetworkData,
         "PartData": commands.partition.FC3_PartData,
         "RaidData": commands.raid.FC3_RaidData,
         "VolGroupData": commands.volgroup.FC3_VolGroupData,
-- 
2.43.0


From f4118b58670bcb041ac77b0407dec38a4e54b4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:50 +0000
Subject: [PATCH 16/38] fix: parsed scripts and packages print in the version
 of their own handler

Creating a parser for another version changed a class attribute that all
existing scripts and package sections used to decide whether to write %end.
---
 pykickstart/base.py     | 1 +
 pykickstart/sections.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index c9fdd3a..4303658 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -483,6 +483,7 @@ class BaseHandler(KickstartHandler):
         # everything else I can think of.
         self.scripts = []
         self.packages = Packages()
+        self.packages._ver = self.version
         self.platform = ""
 
         # Any sections that we do not understand but want to prevent causing errors
diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 5b95637..c5e3920 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -214,6 +214,7 @@ class ScriptSection(Section):
 
         if self.dataObj is not None:
             s = self.dataObj(self._script["body"], **kwargs)
+            s._ver = self.version
             self._resetScript()
             self.handler.scripts.append(s)
 
-- 
2.43.0


From e610795a81578ee71c79ef935b15a93ee5127303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:58 +0000
Subject: [PATCH 17/38] fix: resetCommand replaces the object under all of the
 command's names

After resetCommand('part') the name 'partition' still reached the old object,
whose data was never printed.
---
 pykickstart/base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index 4303658..bf6ddf1 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -388,11 +388,17 @@ class KickstartHandler(KickstartObject):
         if cmdName not in self.commands:
             raise KeyError
 
-        cmdObj = self.commands[cmdName].__class__()
+        oldObj = self.commands[cmdName]
+        cmdObj = oldObj.__class__()
 
         self._setCommand(cmdObj)
-        self.commands[cmdName] = cmdObj
-        self.commands[cmdName].handler = self
+
+        # Other names of the same command must not keep the old object.
+        for (key, val) in list(self.commands.items()):
+            if val is oldObj:
+                self.commands[key] = cmdObj
+
+        cmdObj.handler = self
 
     def dispatcher(self, args, lineno):
         """Call the appropriate KickstartCommand handler for the current line
-- 
2.43.0


From 6181afb050dc98ae9dc66d381d2478955ea123f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:54 +0000
Subject: [PATCH 18/38] fix: timesource --ntp-disable does not equal a time
 server or pool

---
 pykickstart/commands/timesource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/timesource.py b/pykickstart/commands/timesource.py
index 10778b6..4872ee3 100644
--- a/pykickstart/commands/timesource.py
+++ b/pykickstart/commands/timesource.py
@@ -45,7 +45,7 @@ class F33_TimesourceData(BaseData):
             # given that one of ntp_server/ntp_pool/ntp_disable is required
             # this will be --ntp_disable & such timesource invocations will
             # always be the same by definition
-            return True
+            return not y.ntp_server and not y.ntp_pool
 
     def __ne__(self, y):
         return not self == y
-- 
2.43.0


From 35a5b71241e55916a2db455c90418fd83a9d2a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:47 +0000
Subject: [PATCH 19/38] fix: multipath paths of a device that is already
 defined

A second path of the first device started another device, and one of a later
device was added to the list of devices, where it broke the next line with an
AttributeError. Devices now carry their line number.
---
 pykickstart/commands/multipath.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pykickstart/commands/multipath.py b/pykickstart/commands/multipath.py
index acb58bb..0794c96 100644
--- a/pykickstart/commands/multipath.py
+++ b/pykickstart/commands/multipath.py
@@ -96,17 +96,18 @@ class FC6_MultiPath(KickstartCommand):
                 if path.device == dd.device:
                     mapping = {"device": path.device, "multipathdev": path.mpdev}
                     raise KickstartParseError(_("Device '%(device)s' is already used in multipath '%(multipathdev)s'") % mapping, lineno=self.lineno)
-            if mpath.name == dd.mpdev:
+            if mpath.name == dd.name:
                 parent = x
 
-        if not parent:
+        if parent is None:
             mpath = self.dataClass(name=dd.name)    # pylint: disable=not-callable
+            mpath.lineno = self.lineno
             mpath.paths.append(dd)
             return mpath
-        else:
-            mpath = self.mpaths[parent]
-            mpath.paths.append(dd)
-            return dd
+
+        # The path belongs to a device that is in the list already.
+        self.mpaths[parent].paths.append(dd)
+        return None
 
     def dataList(self):
         return self.mpaths
-- 
2.43.0


From 3c04e0e9d6ddb35fb5743b1d2cdd5b040b383af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:52 +0000
Subject: [PATCH 20/38] fix: rescue command takes its rescue keyword argument

---
 pykickstart/commands/rescue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/rescue.py b/pykickstart/commands/rescue.py
index b3ffaa1..493c753 100644
--- a/pykickstart/commands/rescue.py
+++ b/pykickstart/commands/rescue.py
@@ -32,7 +32,7 @@ class F10_Rescue(KickstartCommand):
         KickstartCommand.__init__(self, writePriority, *args, **kwargs)
         self.op = self._getParser()
 
-        self.rescue = False
+        self.rescue = kwargs.get("rescue", False)
         self.nomount = kwargs.get("nomount", False)
         self.romount = kwargs.get("romount", False)
 
-- 
2.43.0


From 79a9cd4755515dc227eb61dac0417375d98f6032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:52 +0000
Subject: [PATCH 21/38] fix: realm command takes keyword arguments

---
 pykickstart/commands/realm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykickstart/commands/realm.py b/pykickstart/commands/realm.py
index 53b52f6..2009461 100644
--- a/pykickstart/commands/realm.py
+++ b/pykickstart/commands/realm.py
@@ -34,9 +34,9 @@ class F19_Realm(KickstartCommand):
 
     def __init__(self, writePriority=0, *args, **kwargs):
         KickstartCommand.__init__(self, writePriority, *args, **kwargs)
-        self.join_realm = None
-        self.join_args = []
-        self.discover_options = []
+        self.join_realm = kwargs.get("join_realm", None)
+        self.join_args = kwargs.get("join_args", [])
+        self.discover_options = kwargs.get("discover_options", [])
 
     def _parseArguments(self, string):
         if self.join_realm:
-- 
2.43.0


From 65bb60074b7ee8b830e2934f44662afa547e7b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:52 +0000
Subject: [PATCH 22/38] fix: F26 display mode command passes its keyword
 arguments on

---
 pykickstart/commands/displaymode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/displaymode.py b/pykickstart/commands/displaymode.py
index d02aaca..5e8ed4a 100644
--- a/pykickstart/commands/displaymode.py
+++ b/pykickstart/commands/displaymode.py
@@ -79,7 +79,7 @@ class F26_DisplayMode(FC3_DisplayMode):
     removedAttrs = KickstartCommand.removedAttrs
 
     def __init__(self, writePriority=0, *args, **kwargs):
-        FC3_DisplayMode.__init__(self, writePriority, args, kwargs)
+        FC3_DisplayMode.__init__(self, writePriority, *args, **kwargs)
         self.nonInteractive = kwargs.get("nonInteractive", False)
 
     def __str__(self):
-- 
2.43.0


From e1a2bbd513f8ec8b184bf63748ea1fd9e485dfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:44 +0000
Subject: [PATCH 23/38] fix: warn about deprecated %packages options given with
 =

---
 pykickstart/sections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index c5e3920..8865273 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -797,7 +797,7 @@ class PackageSection(Section):
 
         for option, new_option in \
                 {"--instLangs": "--inst-langs", "--excludeWeakdeps": "--exclude-weakdeps"}.items():
-            if option in args:
+            if any(arg == option or arg.startswith(option + "=") for arg in args):
                 warnings.warn(_("The %(option)s option on line %(lineno)s will be deprecated in "
                                 "future releases. Please modify your kickstart file to replace "
                                 "this option with its preferred alias %(new_option)s.")
-- 
2.43.0


From 9e7ff87a931bcd6bf32707cf027b01f5445d36b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:56 +0000
Subject: [PATCH 24/38] fix: volgroup rejects unknown options and keeps all
 physical volumes

---
 pykickstart/commands/volgroup.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pykickstart/commands/volgroup.py b/pykickstart/commands/volgroup.py
index bcda6e6..ce410e9 100644
--- a/pykickstart/commands/volgroup.py
+++ b/pykickstart/commands/volgroup.py
@@ -146,15 +146,15 @@ class FC3_VolGroup(KickstartCommand):
 
     def parse(self, args):
         (ns, extra) = self.op.parse_known_args(args=args, lineno=self.lineno)
+        if any(arg for arg in extra if arg.startswith("-")):
+            mapping = {"command": "volgroup", "options": extra}
+            raise KickstartParseError(_("Unexpected arguments to %(command)s command: %(options)s") % mapping, lineno=self.lineno)
+
         # because positional arguments with variable number of values
         # don't parse very well
-        if not ns.partitions:
-            if extra:
-                ns.partitions = extra
-                extra = []
-            elif ns.name:
-                ns.partitions = ns.name[1:]
-                ns.name = [ns.name[0]]
+        if ns.name:
+            ns.partitions = ns.name[1:] + (ns.partitions or []) + extra
+            ns.name = [ns.name[0]]
 
         if not ns.format:
             ns.preexist = True
-- 
2.43.0


From 74f6bfc4431414f9c93d2ddb5206a410eb08230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:56 +0000
Subject: [PATCH 25/38] fix: raid keeps all members when options stand between
 them

---
 pykickstart/commands/raid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykickstart/commands/raid.py b/pykickstart/commands/raid.py
index 90844e5..51d9a82 100644
--- a/pykickstart/commands/raid.py
+++ b/pykickstart/commands/raid.py
@@ -426,8 +426,8 @@ class FC3_Raid(KickstartCommand):
 
         # because positional argumnets with variable number of values
         # don't parse very well
-        if not ns.partitions and extra:
-            ns.partitions = extra
+        if extra:
+            ns.partitions = (ns.partitions or []) + extra
             extra = []
 
         if not ns.format:
-- 
2.43.0


From 4f3ce824e2278f9b736e5fd0d438f86a0844f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:13 +0000
Subject: [PATCH 26/38] fix: F34 partition data no longer writes the removed
 --active

---
 pykickstart/commands/partition.py | 10 +++++++++-
 pykickstart/handlers/f34.py       |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pykickstart/commands/partition.py b/pykickstart/commands/partition.py
index 6305d23..db1ba59 100644
--- a/pykickstart/commands/partition.py
+++ b/pykickstart/commands/partition.py
@@ -59,7 +59,7 @@ class FC3_PartData(BaseData):
     def _getArgsAsStr(self):
         retval = ""
 
-        if self.active:
+        if hasattr(self, "active") and self.active:
             retval += " --active"
         if self.primOnly:
             retval += " --asprimary"
@@ -297,6 +297,14 @@ class F29_PartData(F23_PartData):
 class RHEL8_PartData(F29_PartData):
     pass
 
+class F34_PartData(F29_PartData):
+    removedKeywords = F29_PartData.removedKeywords + ["active"]
+    removedAttrs = F29_PartData.removedAttrs + ["active"]
+
+    def __init__(self, *args, **kwargs):
+        F29_PartData.__init__(self, *args, **kwargs)
+        self.deleteRemovedAttrs()
+
 class FC3_Partition(KickstartCommand):
     removedKeywords = KickstartCommand.removedKeywords
     removedAttrs = KickstartCommand.removedAttrs
diff --git a/pykickstart/handlers/f34.py b/pykickstart/handlers/f34.py
index dc2f7ec..8c4308e 100644
--- a/pykickstart/handlers/f34.py
+++ b/pykickstart/handlers/f34.py
@@ -112,7 +112,7 @@ class F34Handler(BaseHandler):
         "MultiPathData": commands.multipath.FC6_MultiPathData,
         "NetworkData": commands.network.F27_NetworkData,
         "NvdimmData": commands.nvdimm.F28_NvdimmData,
-        "PartData": commands.partition.F29_PartData,
+        "PartData": commands.partition.F34_PartData,
         "RaidData": commands.raid.F29_RaidData,
         "RepoData": commands.repo.F30_RepoData,
         "SnapshotData": commands.snapshot.F26_SnapshotData,
-- 
2.43.0


From 88bd8b9a4b332147acaa938fa080f842686af4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:09 +0000
Subject: [PATCH 27/38] fix: F34 bootloader no longer writes the removed
 --upgrade

---
 pykickstart/commands/bootloader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykickstart/commands/bootloader.py b/pykickstart/commands/bootloader.py
index efe8ca7..9ed3d90 100644
--- a/pykickstart/commands/bootloader.py
+++ b/pykickstart/commands/bootloader.py
@@ -188,7 +188,7 @@ class FC4_Bootloader(FC3_Bootloader):
             retval += " --password=\"%s\"" % self.password
         if self.md5pass:
             retval += " --md5pass=\"%s\"" % self.md5pass
-        if self.upgrade:
+        if hasattr(self, "upgrade") and self.upgrade:
             retval += " --upgrade"
         if len(self.driveorder) > 0:
             retval += " --driveorder=\"%s\"" % ",".join(self.driveorder)
@@ -506,8 +506,8 @@ class RHEL8_Bootloader(F29_Bootloader):
     pass
 
 class F34_Bootloader(F29_Bootloader):
-    removedKeywords = F29_Bootloader.removedKeywords
-    removedAttrs = F29_Bootloader.removedAttrs
+    removedKeywords = F29_Bootloader.removedKeywords + ["upgrade"]
+    removedAttrs = F29_Bootloader.removedAttrs + ["upgrade"]
 
     def _getParser(self):
         op = F29_Bootloader._getParser(self)
-- 
2.43.0


From 090039f2c46c968ab10e39167e7170d635be3ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:31 +0000
Subject: [PATCH 28/38] fix: F14 xconfig no longer writes the removed --depth

---
 pykickstart/commands/xconfig.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykickstart/commands/xconfig.py b/pykickstart/commands/xconfig.py
index df5b560..f6de9fd 100644
--- a/pykickstart/commands/xconfig.py
+++ b/pykickstart/commands/xconfig.py
@@ -120,7 +120,7 @@ class FC6_XConfig(FC3_XConfig):
             retval += " --driver=%s" % self.driver
         if self.defaultdesktop:
             retval += " --defaultdesktop=%s" % self.defaultdesktop
-        if self.depth != 0:
+        if hasattr(self, "depth") and self.depth != 0:
             retval += " --depth=%s" % self.depth
         if hasattr(self, "resolution") and self.resolution:
             retval += " --resolution=%s" % self.resolution
@@ -175,8 +175,8 @@ class F10_XConfig(F9_XConfig):
         return op
 
 class F14_XConfig(F10_XConfig):
-    removedKeywords = F10_XConfig.removedKeywords
-    removedAttrs = F10_XConfig.removedAttrs
+    removedKeywords = F10_XConfig.removedKeywords + ["depth"]
+    removedAttrs = F10_XConfig.removedAttrs + ["depth"]
 
     def _getParser(self):
         op = F10_XConfig._getParser(self)
-- 
2.43.0


From 7123dea7455d15d0c1a0db9090606ad400ed6200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:52 +0000
Subject: [PATCH 29/38] fix: displaymode writes --non-interactive only after a
 mode

---
 pykickstart/commands/displaymode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/displaymode.py b/pykickstart/commands/displaymode.py
index 5e8ed4a..0f8afd0 100644
--- a/pykickstart/commands/displaymode.py
+++ b/pykickstart/commands/displaymode.py
@@ -85,7 +85,7 @@ class F26_DisplayMode(FC3_DisplayMode):
     def __str__(self):
         retval = super(F26_DisplayMode, self).__str__()
 
-        if self.nonInteractive:
+        if retval and self.nonInteractive:
             retval = retval.rstrip()
             retval += " --non-interactive\n"
 
-- 
2.43.0


From 6fc644e7612843c9079627e7bd82925578144f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:16 +0000
Subject: [PATCH 30/38] fix: requesting a group takes back an earlier exclusion
 of it

---
 pykickstart/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 4d86bb1..4504ec9 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -453,6 +453,9 @@ class Packages(KickstartObject):
         # now.
         grp = " ".join(extra)
 
+        # Requesting a group takes back an earlier exclusion of it.
+        self.excludedGroupList = [g for g in self.excludedGroupList if g.name != grp]
+
         if grp in [g.name for g in self.groupList]:
             return
 
-- 
2.43.0


From b7cec24a4eef52b0833322cf54b2398b4229719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:01 +0000
Subject: [PATCH 31/38] fix: undecodable files and unencodable text are
 kickstart errors in the loader

---
 pykickstart/load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index fb935f2..7311d74 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -62,7 +62,7 @@ def load_to_file(location, destination):
         try:
             with open(destination, 'w') as fh:
                 fh.write(contents)
-        except IOError as e:
+        except (IOError, UnicodeError) as e:
             raise KickstartError(_('Error writing file "%s":') % location + ': {e}'.format(e=str(e)))
 
         return destination
@@ -95,7 +95,7 @@ def _load_file(filename):
         else:
             with open(filename, 'r') as fh:
                 contents = fh.read()
-    except IOError as e:
+    except (IOError, UnicodeError) as e:
         raise KickstartError(_('Error opening file: %s') % str(e))
 
     return contents
-- 
2.43.0


From 0f72a3d40ce39f03d1efd2b18fc6c5e12a4300cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:01 +0000
Subject: [PATCH 32/38] fix: %ksappend accepts any blanks before the location
 and keeps the next line apart

---
 pykickstart/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 4504ec9..3fc413a 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -88,7 +88,7 @@ def _preprocessStateMachine(lineIter):
 
         # Try to pull down the remote file.
         try:
-            ksurl = ll.split(' ')[1]
+            ksurl = ll.split()[1]
         except:
             raise KickstartParseError(_("Illegal url for %%ksappend: %s") % ll, lineno=lineno)
 
@@ -103,6 +103,10 @@ def _preprocessStateMachine(lineIter):
         if contents is not None:
             retval += contents.encode(sys.getdefaultencoding())
 
+            # Don't let the following line become part of the file's last one.
+            if l.endswith("\n") and contents and not contents.endswith("\n"):
+                retval += b"\n"
+
     return retval
 
 def preprocessFromStringToString(s):
-- 
2.43.0


From 7d5e99d7aa25196221893784fc698a6eae51e821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:22 +0000
Subject: [PATCH 33/38] fix: ksshell removes its temporary file on every way
 out

---
 tools/ksshell.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/ksshell.py b/tools/ksshell.py
index 324180e..39f7d09 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -170,13 +170,19 @@ def main(argv=None):
     ksparser = KickstartParser(kshandler, followIncludes=True, errorsAreFatal=False)
 
     if opts.input:
+        processedFile = None
+
         try:
             processedFile = preprocessKickstart(opts.input)
-            ksparser.readKickstart(processedFile)
-            os.remove(processedFile)
+            # There is nothing to read if the input file is empty.
+            if processedFile:
+                ksparser.readKickstart(processedFile)
         except KickstartError as e:
             # Errors should just dump you to the prompt anyway.
             print(_("Warning:  The following error occurred when processing the input file:\n%s\n") % e)
+        finally:
+            if processedFile:
+                os.remove(processedFile)
 
     internalCommands = {".clear": ClearCommand(),
                         ".show": ShowCommand(),
-- 
2.43.0


From 866b9464e337e75c2d2087db08b3c03b0961bf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:22 +0000
Subject: [PATCH 34/38] fix: ksvalidator exit status does not wrap around and
 empty files are valid

---
 tools/ksvalidator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/ksvalidator.py b/tools/ksvalidator.py
index 8fe1d9f..16e732d 100755
--- a/tools/ksvalidator.py
+++ b/tools/ksvalidator.py
@@ -103,8 +103,11 @@ def main(argv):
 
     try:
         processedFile = preprocessKickstart(f)
-        ksparser.readKickstart(processedFile)
-        return (cleanup(destdir, processedFile, exitval=ksparser.errorsCount), [])
+        # There is nothing to read if the input file is empty.
+        if processedFile:
+            ksparser.readKickstart(processedFile)
+        # An exit status is only one byte, 256 errors must not look like none.
+        return (cleanup(destdir, processedFile, exitval=min(ksparser.errorsCount, 255)), [])
     except KickstartDeprecationWarning as err:
         return (cleanup(destdir, processedFile),
                 [_("File uses a deprecated option or command.\n%s") % err])
-- 
2.43.0


From 2418cc7721738f7f3495726454e6fc9db96e1752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:15 +0000
Subject: [PATCH 35/38] fix: preprocessing leaves no temporary file behind when
 writing it fails

---
 pykickstart/parser.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 3fc413a..eb1682c 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -131,6 +131,19 @@ def preprocessKickstartToString(f):
 
     return _preprocessStateMachine(iter(contents.splitlines(True)))
 
+def _writeTempFile(s):
+    import tempfile
+    (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
+
+    try:
+        with os.fdopen(outF, "wb") as f:
+            f.write(s)
+    except Exception:
+        os.remove(outName)
+        raise
+
+    return outName
+
 def preprocessFromString(s):
     """Preprocess the kickstart file, provided as the string s.  This
        method is currently only useful for handling %ksappend lines,
@@ -139,12 +152,7 @@ def preprocessFromString(s):
     """
     s = preprocessFromStringToString(s)
     if s:
-        import tempfile
-        (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
-
-        os.write(outF, s)
-        os.close(outF)
-        return outName
+        return _writeTempFile(s)
 
     return None
 
@@ -156,12 +164,7 @@ def preprocessKickstart(f):
     """
     s = preprocessKickstartToString(f)
     if s:
-        import tempfile
-        (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
-
-        os.write(outF, s)
-        os.close(outF)
-        return outName
+        return _writeTempFile(s)
 
     return None
 
-- 
2.43.0


From 5f003d292987c58853e713676bd3f3b76b796709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 36/38] fix: makeVersion accepts every version name it knows,
 DEVEL included

---
 pykickstart/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/version.py b/pykickstart/version.py
index d966637..543b8e6 100644
--- a/pykickstart/version.py
+++ b/pykickstart/version.py
@@ -196,8 +196,8 @@ def returnClassForVersion(version=DEVEL):
         version = int(version)
         module = "%s" % versionToString(version, skipDevel=True)
     except ValueError:
-        module = "%s" % version
         version = stringToVersion(version)
+        module = "%s" % versionToString(version, skipDevel=True)
 
     module = module.lower()
 
-- 
2.43.0


From edd4f10cfc5157027f27d2000c5522875523e589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:02 +0000
Subject: [PATCH 37/38] fix: quote the interpreter and the log file of a script
 when writing it

A script read from a header with --interpreter="/usr/bin/python3 -u" was
written without the quotes, and reading that line again failed.
---
 pykickstart/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index eb1682c..78ec53c 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -250,11 +250,11 @@ class Script(KickstartObject):
             retval += '\n%onerror'
 
         if self.interp != "/bin/sh" and self.interp:
-            retval += " --interpreter=%s" % self.interp
+            retval += " --interpreter=%s" % shlex.quote(self.interp)
         if self.type == constants.KS_SCRIPT_POST and not self.inChroot:
             retval += " --nochroot"
         if self.logfile is not None:
-            retval += " --logfile=%s" % self.logfile
+            retval += " --logfile=%s" % shlex.quote(self.logfile)
         if self.errorOnFail:
             retval += " --erroronfail"
 
-- 
2.43.0


From 73158cf25d4e87b3f0c6ec0ab2654e0b49cc4b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:19 +0000
Subject: [PATCH 38/38] fix: an unused lilo command no longer writes a second
 bootloader line

In FC3, RHEL3 and RHEL4 the lilo object wrote its defaults as a bootloader
line after that of the bootloader command, so reading the text again set the
boot loader location to none.
---
 pykickstart/commands/bootloader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pykickstart/commands/bootloader.py b/pykickstart/commands/bootloader.py
index 9ed3d90..ff1e63f 100644
--- a/pykickstart/commands/bootloader.py
+++ b/pykickstart/commands/bootloader.py
@@ -162,6 +162,14 @@ class FC3_Lilo(FC3_Bootloader):
         op.prog = "lilo"
         return op
 
+    def __str__(self):
+        # This is written as a bootloader line, so an unused lilo command must
+        # not write its defaults after the line of the bootloader command.
+        if not self.seen and not self.useLilo:
+            return ""
+
+        return FC3_Bootloader.__str__(self)
+
 class FC4_Lilo(RemovedCommand, FC3_Lilo):
     def _getParser(self):
         op = FC3_Lilo._getParser(self)
-- 
2.43.0

