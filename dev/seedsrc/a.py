H = '''
import sys, warnings
warnings.simplefilter("ignore")
from pykickstart.parser import KickstartParser, Script, Group, Packages
from pykickstart.version import makeVersion
from pykickstart import version, errors
def parse(ver, text, **kw):
    h = makeVersion(ver)
    p = KickstartParser(h, **kw)
    p.readKickstartFromString(text)
    return h
'''
C = "pykickstart/commands/"
seed("c01-user-lock", "C01",
     [(C + "user.py", '''        if self.lock:
            retval += " --lock"
''', '''        if self.lock and self.uid is None:
            retval += " --lock"
''')], H + '''
h = parse(version.F24, "user --name=joe --lock --uid=1001\\n")
h2 = parse(version.F24, str(h.user))
sys.exit(0 if h2.user.userList[0].lock else 1)
''', "a locked user with an explicit uid", "--lock is not written")
seed("c01-repo-excl", "C01",
     [(C + "repo.py", '''        if self.noverifyssl:
            retval += " --noverifyssl"
''', '''        if self.noverifyssl and not self.excludepkgs:
            retval += " --noverifyssl"
''')], H + '''
h = parse(version.F21, "repo --name=r --baseurl=http://x/ --excludepkgs=a --noverifyssl\\n")
h2 = parse(version.F21, str(h.repo))
sys.exit(0 if h2.repo.repoList[0].noverifyssl else 1)
''', "repo with --excludepkgs and --noverifyssl", "--noverifyssl is dropped")
seed("c04-mount-volgroup", "C04",
     [(C + "volgroup.py", '''        if hasattr(self.handler, "mount") and self.handler.mount.seen:''', '''        if hasattr(self.handler, "mount") and self.handler.mount.dataList() and self.handler.mount.dataList()[-1].reformat:''')], H + '''
from pykickstart.errors import KickstartParseError
try:
    parse(version.F27, "mount /dev/sda1 /boot\\nvolgroup vg pv.1\\n")
    sys.exit(1)
except KickstartParseError:
    sys.exit(0)
''', "mount without --reformat followed by volgroup", "mount and volgroup may be combined")
seed("c05-mount-lineno", "C05",
     [(C + "mount.py", '''raise KickstartParseError(_("Invalid mount point '%s' given") % md.mount_point, lineno=self.lineno)''',
       '''raise KickstartParseError(_("Invalid mount point '%s' given") % md.mount_point)''')] , H + '''
from pykickstart.errors import KickstartParseError
try:
    parse(version.F27, "\\n\\nmount /dev/sda1 boot\\n")
except KickstartParseError as e:
    sys.exit(0 if e.lineno == 3 else 1)
sys.exit(1)
''', "mount with an invalid mount point", "the error does not name its line")
seed("c03-network-leak", "C03",
     [(C + "network.py", '''op.add_argument("--interfacename", default="", version=F21''', '''op.add_argument("--interfacename", "--ifname", default="", version=F21''')], H + '''
from pykickstart.errors import KickstartParseError
try:
    parse(version.F21, "network --ifname=x\\n")
    sys.exit(1)
except KickstartParseError:
    sys.exit(0)
''', "the spelling --ifname in F21", "a released version accepts an option it never had")
