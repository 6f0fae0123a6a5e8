"""Run a recorded failing input again: python3-vt engine/replay.py FILE  (exit 1 when the contract is still broken)"""
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import concrete, spec as S
d = json.load(open(sys.argv[1]))
v = d['violation']
if v.get('no_input'):
    print('no failing input is recorded; failed obligation %s of %s:\n%s\n%s' % (v['kind'], v['instance'], v['obligation'], v['detail']))
    sys.exit(1)
inst = next(i for i in S.build() if i.name == v['instance'])
tmp = tempfile.mkdtemp(prefix='aitisa-replay-')
try:
    exe = concrete.build_driver(os.environ.get('VREPO', '/repo'), tmp)
    drv = concrete.Driver(exe, tmp)
    ci = concrete.CInst(inst)
    r = drv.run(concrete.encode(ci, bytes.fromhex(v['payload']), 0, v['fail_at']))
    drv.stop()
    print('contract:', v['instance'], '\ncall:', v['call'], '\nrecorded:', v['kind'], v['text'])
    r.pop('rand', None)
    print('observed now:', r)
    bad = concrete.judge(ci, v['env'], r, v['fail_at']) if 'env' in v else None
    print('contract breaches now:', bad)
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
