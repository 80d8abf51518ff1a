# per property: harness source and the parts of the simulator it needs
import os
PROPS = {}
def add(a, b, **kw):
    for i in range(a, b + 1):
        PROPS['C%02d' % i] = dict(harness='C%02d.cpp' % i, **kw)
add(1, 10)
add(35,36, rt=["file"])
add(37,37, rt=["net"])
add(11,22, rt=['net'])
add(23,23, plain=['dbstub.cpp'], inc=['-I/usr/include/postgresql', '-I/usr/include/mariadb', '-I/usr/include/mariadb/mysql'], lib=['src/database', 'src/system/time_util.cpp'])
add(26,29, rt=['net'])
add(34,34, rt=['net'])
add(24,25, rt=['file'])
add(31,33, rt=['file'])
add(30,30, rt=['net'], inc=['-I%s/stubs' % os.path.dirname(os.path.abspath(__file__))], lib=['src/concurrent', 'src/system', 'src/lang', 'src/data', 'src/network:flat', 'src/network/rpc', 'src/network/mprpc'])
