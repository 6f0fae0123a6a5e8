"""Record which contract instances the verifier accepts on the current tree (engine/proved.json); run by hand after changes to the machinery.
   python3-vt engine/baseline.py [regex] [limit] [all]"""
import sys, time, json, re, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, spec as S, check, props
import verify as V


def main():
    pat = re.compile(sys.argv[1] if len(sys.argv) > 1 else '.')
    lim = float(sys.argv[2]) if len(sys.argv) > 2 else 45
    al = 'all' in sys.argv
    path = os.path.join(check.VERIF, 'engine', 'proved.json')
    prog = ir.load('/repo')
    old = json.load(open(path)) if os.path.exists(path) else {'plain': {}, 'af': {}}
    res = {'digest': prog.digest, 'plain': old['plain'], 'af': old['af']}
    B = S.build()
    names = {i.name for i in B}
    for m in ('plain', 'af'):
        for n in list(res[m]):
            if n not in names:
                del res[m][n]
    for mode in ('plain', 'af'):
        if mode == 'af' and 'noaf' in sys.argv or mode == 'plain' and 'noplain' in sys.argv:
            continue
        p28 = props.BY_ID['P28']
        L = p28.instances(B, al) if mode == 'af' else [i for i in B if al or i.quick]
        L = [i for i in L if pat.search(i.name) and (al or i.symbolic is True)]
        insts = {i.name: i for i in L}
        pool = check.Pool(prog, None, '/tmp/vbase', insts, {'alloc': mode == 'af', 'want': None, 'known': None})
        t0 = time.time()

        def on(r):
            if r[0] == 'sym':
                d = r[2]
                res[mode][r[1]] = {'verdict': d['verdict'], 'time': round(d['time'], 1), 'obl': sum(v[0] for v in d['obl'].values())}
                if d['verdict'] != 'proved':
                    res[mode][r[1]]['why'] = d['why'][:160]
                    k = sorted(set(f[0] for f in d['failures']))
                    if k:
                        res[mode][r[1]]['kinds'] = k
                    print(mode, r[1], d['verdict'], '%.1f' % d['time'], d['why'][:140], [f[:5] for f in d['failures'][:2]], flush=True)
            else:
                print(mode, r, flush=True)
                res[mode][r[1]] = {'verdict': 'error', 'time': lim}
        order = sorted(insts, key=lambda n: -old[mode].get(n, {}).get('time', 5))
        pool.run([(('sym', n, lim), lim) for n in order], time.time() + 1e6, on)
        pool.stop()
        print(mode, len(insts), sum(res[mode][n]['verdict'] == 'proved' for n in insts), 'proved, wall %.0f' % (time.time() - t0), flush=True)
    with open(path, 'w') as f:
        f.write('{"digest": %s' % json.dumps(res['digest']))
        for m in ('plain', 'af'):
            f.write(',\n"%s": {\n' % m)
            f.write(',\n'.join(' %s: %s' % (json.dumps(k), json.dumps(v)) for k, v in sorted(res[m].items())))
            f.write('\n}')
        f.write('}\n')


if __name__ == '__main__':
    main()
