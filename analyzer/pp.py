import sys, json
from facts import program
def ex(n, tu, d=0):
    if n is None: return '∅'
    k = n['k']
    R = lambda x: ex(x, tu, d+1)
    A = lambda l: ', '.join(R(x) for x in l)
    if k == 'Full': return '{' + R(n['e']) + '}'
    if k == 'Temp': return 'T<' + R(n['e']) + '>'
    if k in ('Int','Bool','Str'): return repr(n['v'])
    if k == 'Ref': return n['n'] + ('#%d' % n['d'] if n['dk'] in ('var','param') else '')+('^' if n.get('cap') else '')
    if k == 'Member': return R(n['base']) + ('->' if n['arrow'] else '.') + n['n']
    if k == 'Call':
        f = n.get('f'); nm = (f['qn'] if f else 'CALLEE:' + R(n.get('callee')) if not n.get('pmf') else 'PMF:'+R(n['pmf']))
        return ('[%s]' % R(n['obj']) if 'obj' in n else '') + nm + '(' + A(n['args']) + ')'
    if k == 'Construct': return 'new<%s%s>' % (n['f']['rqn'], ' copy' if n.get('copy') else ' move' if n.get('move') else '') + '(' + A(n['args']) + ')'
    if k == 'Cast': return R(n['e']) if not n.get('conv') and n['ck'] in ('NoOp','LValueToRValue','UncheckedDerivedToBase','DerivedToBase','FunctionToPointerDecay','ConstructorConversion') else '(%s:%s)' % (n['ck'], n.get('conv','')) + R(n['e'])
    if k == 'Unary': return n['op'] + R(n['e'])
    if k == 'Binary': return '(%s %s %s)' % (R(n['a']), n['op'], R(n['b']))
    if k == 'Lambda': return 'λ[%s]{ops %s}' % (', '.join('%s %s=%s' % (c['k'], c.get('n',''), R(c['e'])) for c in n['caps']), n['ops'])
    if k in ('CoAwait','CoYield'): return '%s(%s ⟶ %s)' % (k, R(n['e']), R(n['common']) if d < 50 and '-c' in sys.argv else '')
    if k == 'Cond': return '(%s ? %s : %s)' % (R(n['c']), R(n['a']), R(n['b']))
    if k == 'New': return 'NEW %s %s' % (tu.ts(n['at']), R(n['init']))
    if k == 'InitList': return '{' + A(n['args']) + '}'
    return k + ''.join(' ' + R(v) for kk, v in n.items() if isinstance(v, dict) and 'k' in v)
def st(n, tu, ind=0):
    p = '  ' * ind
    if n is None: return
    k = n['k']
    if k == 'Block':
        for x in n['b']: st(x, tu, ind)
    elif k == 'Decl':
        for v in n['vars']: print(p + '%s %s#%d = %s' % (tu.ts(v['t']), v['n'], v['d'], ex(v.get('init'), tu)))
    elif k == 'If':
        print(p + 'if%s (%s%s)' % (' constexpr' if n.get('cx') else '', (n['var']['n'] + '=' + ex(n['var'].get('init'), tu) + '; ') if n.get('var') else '', ex(n['c'], tu))); st(n['a'], tu, ind+1)
        if n.get('b'): print(p + 'else'); st(n['b'], tu, ind+1)
    elif k in ('While','DoWhile','For'):
        print(p + k, ex(n.get('c'), tu), ex(n.get('inc'), tu)); st(n.get('init'), tu, ind+1); st(n['body'], tu, ind+1)
    elif k == 'RangeFor':
        print(p + 'for', n['var']['n'], ':', ex(n['range'], tu)); st(n['body'], tu, ind+1)
    elif k == 'Try':
        print(p + 'try'); st(n['body'], tu, ind+1)
        for h in n['h']: print(p + 'catch', 'all' if h.get('all') else tu.ts(h['t'])); st(h['body'], tu, ind+1)
    elif k in ('Return','CoReturn','Expr'):
        print(p + k, ex(n.get('e'), tu), ('  ARG ' + ex(n.get('arg'), tu)) if n.get('arg') and '-c' in sys.argv else '')
    else: print(p + k, ex(n, tu))
if __name__ == '__main__':
    P = program()
    for f in P.by_usr.values():
        if sys.argv[1] in f.qn and f.body is not None:
            print('==', f.qn, f.loc, f.d.get('targs',''), 'coro' if f.d.get('coro') else '')
            print('  params', [(x['n'], x['d'], f.tu.ts(x['t'])) for x in f.params], [i for i in f.d.get('pids', [])])
            for i in f.d.get('inits', []): print('  :', i.get('field') or i.get('base'), ex(i['e'], f.tu))
            st(f.body, f.tu, 1)
