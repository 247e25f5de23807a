#!/usr/bin/env python3
"""A small interpreter for the part of cmd.exe's language that TypeShell emits: minicmd.py FILE.bat (exit status and output of the script)."""
import re, sys

class Goto(Exception): pass
class Exit(Exception): pass

class Cmd:
    def __init__(s, text):
        s.lines = text.replace('\r\n', '\n').split('\n')
        s.vars, s.err, s.steps, s.fv = {}, 0, 0, {}

    def get(s, n): return s.vars.get(n.lower(), '')
    def put(s, n, v):
        if v == '': s.vars.pop(n.lower(), None)
        else: s.vars[n.lower()] = v

    # ---- phase 1: percent expansion while a line is read
    def percent(s, l, args):
        out, i = '', 0
        while i < len(l):
            c = l[i]
            if c != '%': out += c; i += 1; continue
            if l[i+1:i+2] == '%': out += '%'; i += 2; continue
            m = re.match(r'%(~?)([0-9])', l[i:])
            if m:
                a = args[int(m[2])] if int(m[2]) < len(args) else ''
                out += a.strip('"') if m[1] else a
                i += m.end(); continue
            if l[i+1:i+2] == '*': out += ' '.join(args[1:]); i += 2; continue
            j = l.find('%', i + 1)
            if j < 0: i += 1; continue
            out += s.var(l[i+1:j]); i = j + 1
        return out

    def var(s, ref):
        m = re.match(r'(.*?):~(-?\d*)(?:,(-?\d*))?$', ref, re.S)
        if not m: return s.get(ref)
        if m[1].lower() not in s.vars: return ref[len(m[1])+1:]
        v = s.get(m[1]); a = int(m[2] or 0)
        if a < 0: a = max(0, len(v) + a)
        if m[3] is None or m[3] == '': return v[a:]
        n = int(m[3])
        return v[a:a+n] if n >= 0 else v[a:len(v)+n]

    def delayed(s, t):
        for k, v in s.fv.items(): t = t.replace('%' + k, v)
        if '!' not in t: return t
        out, i = '', 0
        while i < len(t):
            c = t[i]
            if c == '^' and i + 1 < len(t): out += t[i+1]; i += 2; continue
            if c == '!':
                j = t.find('!', i + 1)
                if j < 0: i += 1; continue
                out += s.var(t[i+1:j]); i = j + 1; continue
            out += c; i += 1
        return out

    # ---- parsing of one logical command
    def parse(s, pos, args):
        """returns (ast, next position)"""
        s.src, s.p, s.pos, s.args = s.percent(s.lines[pos], args), 0, pos + 1, args
        ast = s.seq()
        return ast, s.pos

    def more(s):
        if s.pos >= len(s.lines): raise SyntaxError('unbalanced parenthesis')
        s.src = s.percent(s.lines[s.pos], s.args); s.p = 0; s.pos += 1

    def ws(s):
        while s.p < len(s.src) and s.src[s.p] in ' \t,;=@': s.p += 1

    def word(s, w):
        m = re.match(re.escape(w) + r'(?=[\s(":/=,;]|$)', s.src[s.p:], re.I)
        if m: s.p += m.end()
        return bool(m)

    def seq(s, inblock=False):
        l = [s.cmd(inblock)]
        while s.p < len(s.src) and s.src[s.p] == '&':
            s.p += 1
            l.append(s.cmd(inblock))
        return ('seq', l)

    def block(s):
        s.p += 1; body = []
        while True:
            s.ws()
            if s.p >= len(s.src):
                s.more(); s.ws()
                if s.src[s.p:s.p+1] == ':':
                    s.p = len(s.src)
                continue
            if s.src[s.p] == ')': s.p += 1; return ('seq', body)
            body.append(s.seq(True))

    def token(s):
        s.ws(); a, q = s.p, False
        while s.p < len(s.src) and (q or s.src[s.p] not in ' \t,;='):
            if s.src[s.p] == '"': q = not q
            s.p += 1
        return s.src[a:s.p]

    def cmd(s, inblock):
        s.ws()
        if s.src[s.p:s.p+1] == '(':
            return s.block()
        if s.word('if'):
            s.ws()
            if s.word('defined'): c = ('defined', s.token())
            elif s.word('exist'): c = ('exist', s.token())
            else:
                a = s.token(); o = s.token().lower()
                if o not in ('equ', 'neq', 'lss', 'leq', 'gtr', 'geq'): raise SyntaxError('operator ' + o)
                c = (o, a, s.token())
            s.ws()
            isb = s.src[s.p:s.p+1] == '('
            t, e = s.cmd(inblock), ('seq', [])
            if isb:
                k = s.p; s.ws()
                if s.word('else'): e = s.cmd(inblock)
                else: s.p = k
            return ('if', c, t, e)
        m = re.match(r'for /f "delims=" %(\w) in \("(.*?)"\) do ', s.src[s.p:], re.I)
        if m:
            s.p += m.end()
            return ('for', m[1], m[2], s.cmd(inblock))
        a, q = s.p, False
        while s.p < len(s.src):
            c = s.src[s.p]
            if c == '"': q = not q
            elif not q and c == '^':
                if s.p + 1 == len(s.src) and s.pos < len(s.lines):
                    nxt = s.lines[s.pos]; s.pos += 1
                    if nxt == '': # an escaped line feed
                        nxt = s.lines[s.pos]; s.pos += 1
                        t = s.src[a:s.p] + '\n'; s.src = nxt; s.p = 0
                        return ('raw', t)
                s.p += 1
            elif not q and (c == '&' or c == ')' and inblock): break
            s.p += 1
        t = s.src[a:s.p]
        if not inblock and t.startswith(')'): return ('seq', [])
        return ('raw', t)

    # ---- execution
    def cond(s, c):
        if c[0] == 'defined': return s.delayed(c[1]).lower() in s.vars
        if c[0] == 'exist': return False
        a, b = s.delayed(c[1]), s.delayed(c[2])
        if re.fullmatch(r'-?\d+', a) and re.fullmatch(r'-?\d+', b): a, b = int(a), int(b)
        return {'equ': a == b, 'neq': a != b, 'lss': a < b, 'leq': a <= b, 'gtr': a > b, 'geq': a >= b}[c[0]]

    def arith(s, t):
        n, e = t.split('=', 1)
        def val(m):
            v = s.get(m[0])
            return v if re.fullmatch(r'-?\d+', v) else '0'
        e = re.sub(r'[A-Za-z_]\w*', val, e)
        toks = re.findall(r'\d+|[-+*/%()]', e); p = [0]
        wrap = lambda v: (v + 2**31) % 2**32 - 2**31
        def prim():
            t = toks[p[0]]; p[0] += 1
            if t == '-': return wrap(-prim())
            if t == '+': return prim()
            if t == '(':
                v = add(); p[0] += 1; return v
            return int(t)
        def mul():
            v = prim()
            while p[0] < len(toks) and toks[p[0]] in '*/%':
                o = toks[p[0]]; p[0] += 1; w = prim()
                if o == '*': v = wrap(v * w)
                else:
                    q = abs(v) // abs(w) * (1 if (v < 0) == (w < 0) else -1)
                    v = q if o == '/' else v - q * w
            return v
        def add():
            v = mul()
            while p[0] < len(toks) and toks[p[0]] in '+-':
                o = toks[p[0]]; p[0] += 1; w = mul()
                v = wrap(v + w if o == '+' else v - w)
            return v
        s.put(n, str(add()))

    def run(s, a):
        if a[0] == 'seq':
            for x in a[1]: s.run(x)
        elif a[0] == 'if': s.run(a[2] if s.cond(a[1]) else a[3])
        elif a[0] == 'for':
            old = dict(s.fv); v = s.delayed(a[2])
            if v: s.fv[a[1]] = v; s.run(a[3])
            s.fv = old
        else: s.simple(a[1])

    def simple(s, raw):
        s.steps += 1
        if s.steps > 200000: print('no end'); sys.exit(99)
        t = s.delayed(raw)
        low = t.lower()
        if low.startswith('set /a '): s.arith(t[7:].strip().strip('"'))
        elif low.startswith('set '):
            b = t[4:]
            if b.startswith('"'): b = b[1:b.rindex('"')]
            n, v = b.split('=', 1); s.put(n, v)
        elif low.startswith('echo('): sys.stdout.write(t[5:] + '\n')
        elif low.startswith('goto'): raise Goto(t[4:].strip(' :').split()[0])
        elif low.startswith('call :'):
            w = s.percent(t[6:], s.args0).split()
            s.frame(s.find(w[0], 0) + 1, w)
        elif low.startswith('exit'):
            w = low.replace('/b', '').split()[1:]
            if w: s.err = int(w[0])
            raise Exit()
        elif low.startswith(('rem', 'setlocal', 'endlocal', 'echo off')) or not t.strip(): pass
        else: print('unknown command', t); sys.exit(98)

    def find(s, label, pos):
        r = list(range(pos, len(s.lines))) + list(range(pos))
        for i in r:
            m = re.match(r'[\s,;=]*:([^:\s]+)', s.lines[i])
            if m and m[1].lower() == label.lower(): return i
        print('no label', label); sys.exit(97)

    def frame(s, pos, args):
        while pos < len(s.lines):
            if re.match(r'[\s,;=]*:', s.lines[pos]): pos += 1; continue
            a, nxt = s.parse(pos, args)
            s.args0 = args
            try: s.run(a); pos = nxt
            except Goto as g: pos = s.find(g.args[0], nxt)
            except Exit: return
            s.args0 = args

c = Cmd(open(sys.argv[1], newline='').read())
c.frame(0, [sys.argv[1]])
sys.exit(c.err & 255)
