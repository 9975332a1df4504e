import sys; sys.path.insert(0,'/verif')
from lib import vbuild
print(vbuild.harness(sys.argv[1], ["h/%s.cc" % sys.argv[1]] , sys.argv[2] if len(sys.argv)>2 else "rel"))
