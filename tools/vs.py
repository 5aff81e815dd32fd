"""Small two-state simulator for the Verilog that spade emits (used by the demonstrations of planted bugs)."""
import re, subprocess, os, tempfile
TOK = re.compile(r"\s*(?:(\\[^\s]+\s)|(\d*'s?[bdh][0-9a-fA-F?xXzZ_]+|\d*'s?[01xz](?![\w]))|(\d+)|(\$?[A-Za-z_][\w$]*)|(<<<|>>>|===|!==|<<|>>|<=|>=|==|!=|&&|\|\||\+:|-:|[-+*/%&|^~!<>?:(){}\[\],;=.@#]))")
def clean(src):
    out, skip = [], []
    for l in src.split('\n'):
        s = l.strip()
        if s.startswith('`define'):
            continue
        if s.startswith('`ifdef') or s.startswith('`ifndef'):
            skip.append(True); continue
        if s.startswith('`endif'):
            skip.pop(); continue
        if skip or s.startswith('`'):
            continue
        out.append(l)
    return re.sub(r'\(\*.*?\*\)', '', '\n'.join(out), flags=re.S)
def toks(s):
    r, i = [], 0
    while True:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip():
                raise SyntaxError(s[i:i + 60])
            return r
        i = m.end()
        if m[1]: r.append(('id', m[1][1:].strip()))
        elif m[2]: r.append(('lit', m[2]))
        elif m[3]: r.append(('num', int(m[3])))
        elif m[4]: r.append(('id', m[4]) if m[4] not in KW else ('kw', m[4]))
        else: r.append(('p', m[5]))
KW = {'module','endmodule','input','output','inout','logic','reg','wire','assign','always','always_comb','always_ff','posedge','negedge','begin','end','if','else','case','casez','endcase','priority','unique','initial','localparam','default','for','int','signed','genvar','generate','endgenerate','or'}
BIN = [['||'],['&&'],['|'],['^'],['&'],['==','!=','===','!=='],['<','<=','>','>='],['<<','>>','<<<','>>>'],['+','-'],['*','/','%']]
class P:
    def __init__(s, t): s.t, s.i = t, 0
    def peek(s, k=0): return s.t[s.i + k] if s.i + k < len(s.t) else ('eof', '')
    def next(s): s.i += 1; return s.t[s.i - 1]
    def isp(s, v): return s.peek()[1] == v and s.peek()[0] in ('p', 'kw')
    def acc(s, v):
        if s.isp(v): s.i += 1; return True
        return False
    def exp(s, v):
        if not s.acc(v): raise SyntaxError(f'expected {v} got {s.t[s.i:s.i+8]}')
    def name(s):
        k, v = s.next()
        if k != 'id': raise SyntaxError(f'name expected, got {v}')
        return v
    def expr(s):
        c = s.bin(0)
        if s.acc('?'):
            a = s.expr(); s.exp(':'); return ('?', c, a, s.expr())
        return c
    def bin(s, l):
        if l == len(BIN): return s.un()
        a = s.bin(l + 1)
        while s.peek()[0] == 'p' and s.peek()[1] in BIN[l]:
            o = s.next()[1]; a = (o, a, s.bin(l + 1))
        return a
    def un(s):
        if s.peek()[0] == 'p' and s.peek()[1] in ('!', '~', '-', '+', '&', '|', '^'):
            o = s.next()[1]; return ('u' + o, s.un())
        return s.post()
    def post(s):
        k, v = s.next()
        if k == 'num':
            if s.peek()[0] == 'lit' and s.peek()[1][0] == "'": v = ('lit', str(v) + s.next()[1]); return mklit(v[1])
            return ('c', v & 0xffffffff, 32, True)
        if k == 'lit': return mklit(v)
        if v == '(' : e = s.expr(); s.exp(')'); return e
        if v == '{':
            e = s.expr()
            if s.isp('{'):
                s.next(); b = [s.expr()]
                while s.acc(','): b.append(s.expr())
                s.exp('}'); s.exp('}'); return ('rep', e, ('cat', b))
            b = [e]
            while s.acc(','): b.append(s.expr())
            s.exp('}'); return ('cat', b)
        if k == 'id' and v in ('$signed', '$unsigned'):
            s.exp('('); e = s.expr(); s.exp(')'); return (v, e)
        if k == 'id':
            e = ('v', v)
            while s.isp('['):
                s.next(); a = s.expr()
                if s.acc('+:'): b = s.expr(); e = ('part', e, a, b)
                elif s.acc('-:'): b = s.expr(); e = ('part', e, ('+', ('-', a, b), ('c', 1, 32, True)), b)
                elif s.acc(':'): b = s.expr(); e = ('slice', e, a, b)
                else: e = ('idx', e, a)
                s.exp(']')
            return e
        raise SyntaxError(f'expression expected at {s.t[s.i-1:s.i+8]}')
    def stmt(s):
        if s.acc('begin'):
            r = []
            while not s.acc('end'): r.append(s.stmt())
            return ('blk', r)
        if s.acc('if'):
            s.exp('('); c = s.expr(); s.exp(')'); a = s.stmt(); b = s.stmt() if s.acc('else') else ('blk', [])
            return ('if', c, a, b)
        if s.isp('priority') or s.isp('unique'): s.next()
        if s.isp('casez') or s.isp('case'):
            s.next(); s.exp('('); c = s.expr(); s.exp(')'); arms = []
            while not s.acc('endcase'):
                if s.acc('default'): p = None
                else: p = s.expr()
                s.exp(':'); arms.append((p, s.stmt()))
            return ('case', c, arms)
        if s.acc(';'): return ('blk', [])
        lv = s.post() if not s.isp('{') else s.post()
        if not s.acc('='): s.exp('<=')
        e = s.expr(); s.exp(';')
        return ('set', lv, e)
def mklit(t):
    w, b = t.split("'", 1)
    sg = b[0] == 's'
    if sg: b = b[1:]
    base, d = b[0], b[1:].replace('_', '')
    if base in '01xz': return ('c', (1 << 64) - 1 if base == '1' else 0, 64, False)
    w = int(w) if w else 32
    q = 0
    if base == 'b':
        q = int(''.join('1' if c in '?z' else '0' for c in d), 2)
        if len(d) == 1 and d in '?z': q = (1 << w) - 1
    v = int(''.join(c if c not in '?xXzZ' else '0' for c in d) or '0', {'b': 2, 'd': 10, 'h': 16}[base])
    return ('c', v & ((1 << w) - 1), max(w, len(d) if base == 'b' else 0), sg, q)
class Mod: pass
def parse(src):
    p = P(toks(clean(src))); mods = {}
    while p.peek()[0] != 'eof':
        if not p.acc('module'): p.next(); continue
        m = Mod(); m.name = p.name(); m.ports = []; m.nets = {}; m.mems = {}; m.assigns = []; m.always = []; m.comb = []; m.init = []; m.insts = []; m.decl = []
        mods[m.name] = m
        def rng():
            sg = p.acc('signed')
            if p.acc('['):
                a = ev0(p.expr()); p.exp(':'); b = ev0(p.expr()); p.exp(']'); return a - b + 1
            return 1
        def ev0(e): return ev(e, {}, None, {})[0] if False else cval(e)
        p.exp('(')
        while not p.acc(')'):
            d = p.next()[1]
            if d == ',': continue
            while p.isp('logic') or p.isp('wire') or p.isp('reg'): p.next()
            w = rng(); n = p.name(); m.ports.append((d, n, w)); m.nets[n] = w; m.decl.append(n)
        p.exp(';')
        while not p.acc('endmodule'):
            if p.isp('logic') or p.isp('reg') or p.isp('wire'):
                p.next(); w = rng(); n = p.name(); m.decl.append(n)
                if p.isp('['):
                    p.next(); a = cval(p.expr()); p.exp(':'); b = cval(p.expr()); p.exp(']'); m.mems[n] = (w, abs(a - b) + 1)
                else: m.nets[n] = w
                if p.acc('='): m.assigns.append((('v', n), p.expr()))
                p.exp(';')
            elif p.acc('localparam'):
                w = rng(); n = p.name(); m.nets[n] = w; m.decl.append(n); p.exp('='); m.assigns.append((('v', n), p.expr())); p.exp(';')
            elif p.acc('assign'):
                l = p.post(); p.exp('='); m.assigns.append((l, p.expr())); p.exp(';')
            elif p.acc('always_comb'): m.comb.append(p.stmt())
            elif p.acc('always'):
                p.exp('@'); p.exp('(')
                if p.acc('posedge'):
                    c = p.expr(); p.exp(')'); m.always.append((c, p.stmt()))
                else:
                    while not p.acc(')'): p.next()
                    p.stmt()
            elif p.acc('initial'): m.init.append(p.stmt())
            elif p.acc(';'): pass
            else:
                mn = p.name(); inst = p.name(); p.exp('('); cs = []
                while not p.acc(')'):
                    if p.acc(','): continue
                    p.exp('.'); pn = p.name(); p.exp('('); e = None if p.isp(')') else p.expr(); p.exp(')'); cs.append((pn, e))
                p.exp(';'); m.insts.append((mn, inst, cs))
    return mods
def cval(e):
    if e[0] == 'c': return e[1]
    a, b = cval(e[1]), cval(e[2]) if len(e) > 2 else 0
    return {'+': a + b, '-': a - b, '*': a * b, 'u-': -a}[e[0]]
class Inst:
    def __init__(s, mods, name):
        s.m = mods[name]; s.v = {n: 0 for n in s.m.nets}; s.mem = {n: [0] * k for n, (w, k) in s.m.mems.items()}
        s.kids = [(Inst(mods, mn), cs) for mn, _, cs in s.m.insts]
        for st in s.m.init: s.ex(st, s.store)
    def w(s, e):
        k = e[0]
        if k == 'v': return (s.m.nets[e[1]], False)
        if k == 'c': return (e[2], e[3])
        if k in ('idx',): return (s.m.mems[e[1][1]][0], False) if e[1][1] in s.m.mems else (1, False)
        if k == 'slice': return (cval(e[2]) - cval(e[3]) + 1, False)
        if k == 'part': return (cval(e[3]), False)
        if k == 'cat': return (sum(s.w(x)[0] for x in e[1]), False)
        if k == 'rep': return (cval(e[1]) * s.w(e[2])[0], False)
        if k == '$signed': return (s.w(e[1])[0], True)
        if k == '$unsigned': return (s.w(e[1])[0], False)
        if k in ('==','!=','===','!==','<','<=','>','>=','&&','||','u!','u&','u|','u^'): return (1, False)
        if k in ('u-','u~','u+'): return s.w(e[1])
        if k in ('<<','>>','<<<','>>>'): return s.w(e[1])
        if k == '?':
            a, b = s.w(e[2]), s.w(e[3]); return (max(a[0], b[0]), a[1] and b[1])
        a, b = s.w(e[1]), s.w(e[2]); return (max(a[0], b[0]), a[1] and b[1])
    def e(s, e, W=None, sg=None):
        w0, s0 = s.w(e)
        if W is None or W < w0: W = w0
        if sg is None: sg = s0
        k = e[0]; M = (1 << W) - 1
        def ext(v, w): return ((v - (1 << w)) & M) if sg and w and v >> (w - 1) & 1 else v & M
        def si(v, w): return v - (1 << w) if w and v >> (w - 1) & 1 else v
        if k == 'v': return ext(s.v[e[1]], w0)
        if k == 'c': return ext(e[1], w0)
        if k == 'idx':
            i = s.e(e[2]); n = e[1][1]
            if n in s.mem: return ext(s.mem[n][i] if i < len(s.mem[n]) else 0, w0)
            return ext(s.e(e[1]) >> i & 1, 1)
        if k == 'slice': return ext(s.e(e[1]) >> cval(e[3]) & ((1 << w0) - 1), w0)
        if k == 'part': return ext(s.e(e[1]) >> s.e(e[2]) & ((1 << w0) - 1), w0)
        if k == 'cat':
            r = 0
            for x in e[1]: r = r << s.w(x)[0] | s.e(x)
            return ext(r, w0)
        if k == 'rep':
            r = 0
            for _ in range(cval(e[1])): r = r << s.w(e[2])[0] | s.e(e[2])
            return ext(r, w0)
        if k in ('$signed', '$unsigned'): return ext(s.e(e[1]), w0)
        if k == 'u!': return int(not s.e(e[1]))
        if k == 'u~': return ~s.e(e[1], W, sg) & M
        if k == 'u-': return -s.e(e[1], W, sg) & M
        if k == 'u|': return int(s.e(e[1]) != 0)
        if k == 'u&': return int(s.e(e[1]) == (1 << s.w(e[1])[0]) - 1)
        if k == 'u^': return bin(s.e(e[1])).count('1') & 1
        if k == '&&': return int(bool(s.e(e[1])) and bool(s.e(e[2])))
        if k == '||': return int(bool(s.e(e[1])) or bool(s.e(e[2])))
        if k in ('==','!=','===','!==','<','<=','>','>='):
            (wa, sa), (wb, sb) = s.w(e[1]), s.w(e[2]); ww = max(wa, wb); g = sa and sb
            a, b = s.e(e[1], ww, g), s.e(e[2], ww, g)
            if g: a, b = si(a, ww), si(b, ww)
            return int({'==': a == b, '===': a == b, '!=': a != b, '!==': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[k])
        if k in ('<<', '<<<'): return s.e(e[1], W, sg) << min(s.e(e[2]), 4096) & M
        if k == '>>': return s.e(e[1], W, sg) >> s.e(e[2])
        if k == '>>>':
            a = s.e(e[1], W, sg); return (si(a, W) if sg else a) >> s.e(e[2]) & M
        if k == '?': return s.e(e[2], W, sg) if s.e(e[1]) else s.e(e[3], W, sg)
        a, b = s.e(e[1], W, sg), s.e(e[2], W, sg)
        if k in '/%':
            if b == 0: return 0
            if sg: a, b = si(a, W), si(b, W)
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return (q if k == '/' else a - q * b) & M
        return {'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b, '^': a ^ b}[k] & M
    def store(s, l, v):
        """v is an integer already truncated to the width of l; returns whether something changed"""
        if l[0] == 'v':
            ch = s.v[l[1]] != v; s.v[l[1]] = v; return ch
        if l[0] == 'cat':
            ch = False; sh = sum(s.w(x)[0] for x in l[1])
            for x in l[1]:
                w = s.w(x)[0]; sh -= w; ch |= s.store(x, v >> sh & ((1 << w) - 1))
            return ch
        n = l[1][1]
        if l[0] == 'idx' and n in s.mem:
            i = s.e(l[2])
            if i < len(s.mem[n]): s.mem[n][i] = v
            return True
        lo = cval(l[3]) if l[0] == 'slice' else s.e(l[2]); w = s.w(l)[0]; m = ((1 << w) - 1) << lo
        return s.store(('v', n), s.v[n] & ~m | v << lo)
    def set(s, l, e, put):
        W = s.w(l)[0]; return put(l, s.e(e, W) & ((1 << W) - 1))
    def ex(s, st, put):
        if st[0] == 'blk': return any([s.ex(x, put) for x in st[1]])
        if st[0] == 'if': return s.ex(st[2] if s.e(st[1]) else st[3], put)
        if st[0] == 'set': return s.set(st[1], st[2], put)
        c = s.e(st[1])
        for p, b in st[2]:
            if p is None or (p[4] if len(p) > 4 else 0) | (c ^ p[1]) == (p[4] if len(p) > 4 else 0): return s.ex(b, put)
        return False
    def settle1(s):
        ch = False
        for l, e in s.m.assigns: ch |= bool(s.set(l, e, s.store))
        for st in s.m.comb: ch |= bool(s.ex(st, s.store))
        for k, cs in s.kids:
            dirs = {n: (d, w) for d, n, w in k.m.ports}
            for pn, e in cs:
                d, w = dirs[pn]
                if d == 'input': ch |= k.store(('v', pn), s.e(e, w) & ((1 << w) - 1))
            ch |= k.settle1()
            for pn, e in cs:
                d, w = dirs[pn]
                if d == 'output' and e is not None: ch |= bool(s.store(e, k.v[pn] & ((1 << s.w(e)[0]) - 1)))
        return ch
    def settle(s):
        for _ in range(1000):
            if not s.settle1(): return
        raise RuntimeError('does not settle')
    def walk(s):
        yield s
        for k, _ in s.kids: yield from k.walk()
    def tick(s, clk):
        s.settle(); all_ = list(s.walk()); old = [[i.e(c) for c, _ in i.m.always] for i in all_]
        s.v[clk] = 1; s.settle(); todo = []
        for i, o in zip(all_, old):
            for (c, st), b in zip(i.m.always, o):
                if not b and i.e(c):
                    def put(l, v, i=i):
                        if l[0] == 'idx': l = ('idx', l[1], ('c', i.e(l[2]), 64, False))
                        todo.append((i, l, v))
                    i.ex(st, put)
        for i, l, v in todo: i.store(l, v)
        s.settle(); s.v[clk] = 0; s.settle()
def compile(src, *args):
    """source text -> (exit code, diagnostics, Verilog)"""
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'm.spade'); open(f, 'w').write(src)
        o = os.path.join(d, 'o.sv')
        r = subprocess.run(['/repo/target/debug/spade', f'{f}', '-o', o, '--no-color', *args], capture_output=True, text=True, timeout=120)
        return r.returncode, r.stdout + r.stderr, open(o).read() if os.path.exists(o) else ''
def sim(src, top, *args):
    c, d, v = compile(src, *args)
    if c: raise SystemExit('compilation failed: ' + d)
    mods = parse(v)
    n = top if top in mods else next(m for m in mods if m.split('::')[-1] == top)
    return Inst(mods, n)
def run(i, **kw):
    for k, v in kw.items(): i.v[k + '_i'] = v
    i.settle(); return i.v['output__']
