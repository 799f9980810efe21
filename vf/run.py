import sys, subprocess, os
from .gen import Gen
from . import contracts
def main():
    keys = sys.argv[1].split(',') if len(sys.argv) > 1 else []
    mode = sys.argv[2] if len(sys.argv) > 2 else 'bf'
    if keys == ['ALL']: keys = list(contracts.C)
    g = Gen('/repo', keys, mode)
    t, missing = g.emit()
    open('/tmp/w/out.rs', 'w').write(t)
    print('missing', missing, g.notes)
    r = subprocess.run(['verus', '--edition', '2021', '/tmp/w/out.rs', ] + sys.argv[3:])
main()
