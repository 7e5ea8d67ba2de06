import sys, facts, pickle, os
def pp(n, d=0):
    if isinstance(n, list):
        for x in n: pp(x, d)
        return
    if not isinstance(n, dict) or n.get('_type'): return
    keys = {k: v for k, v in n.items() if not isinstance(v, (dict, list)) and k not in ('i',)}
    ex = []
    for k in ('k','op','n','rk','id','q','v','ck','rec','arrow','lv','cv','copy','move','dflt','elide','ext','post','fn','list','dctor'):
        if k in keys: ex.append('%s=%s' % (k, keys[k]))
    if n.get('t') and isinstance(n['t'], dict): ex.append(':' + n['t']['s'][:70])
    if 'callee' in n: ex.append('-> ' + n['callee']['q'] + ' ' + ''.join(n['callee'].get('modes', [])) + (' R' if n['callee'].get('repo') else ''))
    print('  ' * d + str(n.get('l','')) + ' ' + ' '.join(ex))
    for k, v in n.items():
        if k in ('t', 'callee'): continue
        if isinstance(v, (dict, list)) and v and not (isinstance(v, dict) and v.get('_type')):
            if isinstance(v, list) and not any(isinstance(x, dict) and not x.get('_type') for x in v): continue
            if k not in ('c',): print('  ' * d + ' .' + k)
            pp(v, d + 1)
if __name__ == '__main__':
    c = '/tmp/prog.pkl'
    if not os.path.exists(c) or '-r' in sys.argv:
        p = facts.load(); sys.setrecursionlimit(100000); pickle.dump(p, open(c, 'wb'))
    p = pickle.load(open(c, 'rb'))
    for a in sys.argv[1:]:
        if a == '-r': continue
        for f in p.find(a):
            print('#', f['q'], f['fn'], f['file'], f['l']); pp({k: f[k] for k in ('params','inits','body') if k in f})
