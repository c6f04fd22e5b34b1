"""Parsed form of gfortran's gimple control-flow graph."""
import os, re
import fort
from build import REPO

MARK = re.compile(r'\[(?:[^\[\]\s]*:\d+:\d+|0:0)(?: discrim \d+)?\] ')
POS = re.compile(r'\[([^\[\]\s]*):(\d+):\d+(?: discrim \d+)?\] ')
HEAD = re.compile(r'^;; Function (\S+) \(([^,]+), funcdef_no')
ID = re.compile(r'[A-Za-z_][\w.$]*')


def split(s):
    """split on top-level commas"""
    out, d, cur, q = [], 0, '', None
    for ch in s:
        if q:
            cur += ch
            if ch == q: q = None
            continue
        if ch in '"\'': q = ch
        if ch in '([{<': d += 1
        elif ch in ')]}>': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


class Stmt:
    __slots__ = ('bb', 'file', 'line', 'kind', 'lhs', 'rhs', 'callee', 'args', 'targets', 'text')

    def __repr__(self): return '%s:%s %s' % (os.path.basename(self.file or '?'), self.line, self.text)


class FFn:
    def __init__(self, name, asm, src):
        self.name = name; self.asm = asm; self.src = src; self.params = []; self.ret = ''; self.locals = {}; self.bbs = {}; self.statics = {}; self.consts = {}

    def stmts(self):
        for b in sorted(self.bbs):
            yield from self.bbs[b]

    def line(self):
        for s in self.stmts():
            if s.line: return s.line
        return 0

    def succs(self, b):
        st = self.bbs.get(b, [])
        if st and st[-1].kind in ('if', 'goto', 'switch'): return st[-1].targets
        if st and st[-1].kind in ('return', 'noreturn'): return []
        ks = sorted(self.bbs); i = ks.index(b)
        return [ks[i + 1]] if i + 1 < len(ks) else []


def find_eq(t):
    """position of the top-level ' = ' of an assignment, or -1"""
    d = 0; q = None; i = 0
    while i < len(t) - 2:
        ch = t[i]
        if q:
            if ch == q: q = None
        elif ch in '"\'': q = ch
        elif ch in '([{': d += 1
        elif ch in ')]}': d -= 1
        elif d == 0 and t.startswith(' = ', i): return i
        i += 1
    return -1


CALL = re.compile(r'^([A-Za-z_][\w.$]*|_\d+|[A-Za-z_][\w.$]*->[\w.$]+) \((.*)\)$')


def parse(text, src):
    fns = []; cur = None; body = False; lines = text.split('\n'); i = 0; bb = None; labels = {}; pend = []
    consts = {}
    for m in re.finditer(r'^;; CONST (C\.\d+) (.+?) = (.*)$', text, re.M): consts[m.group(1)] = (m.group(2), m.group(3))
    while i < len(lines):
        ln = lines[i]; i += 1
        m = HEAD.match(ln)
        if m:
            cur = FFn(m.group(1), m.group(2), src); cur.consts = consts; body = False; fns.append(cur); bb = None; labels = {}; pend = []
            continue
        if cur is None: continue
        if not body:
            if ln.startswith('{'): body = True; continue
            if ln.startswith(';;') or ln.startswith('__attribute__') or not ln or ln.startswith(('Removing', 'Merging')): continue
            k = ln.find(' ' + cur.name + ' (')
            if k >= 0:
                cur.ret = ln[:k].strip()
                a = ln[k + len(cur.name) + 3:].rstrip()
                a = a[:-1] if a.endswith(')') else a
                for p in split(a):
                    if p == 'void': continue
                    mm = re.match(r'^(.*[\s*&])([\w.$]+)$', p)
                    cur.params.append((mm.group(2), mm.group(1).strip()) if mm else ('', p))
            continue
        if ln.startswith('}'):
            for st, lab in pend:
                st.targets = [labels[x] if x in labels else None for x in lab]
                st.targets = [x for x in dict.fromkeys(st.targets) if x is not None]
            cur_done = cur; cur = None; body = False
            continue
        m = re.match(r'^  <bb (\d+)>', ln)
        if m: bb = int(m.group(1)); cur.bbs[bb] = []; continue
        t = ln.strip()
        if not t: continue
        if bb is None:
            t = t.rstrip(';')
            st = t.startswith('static '); t = t[7:] if st else t
            init = None
            if ' = ' in t: t, init = t.split(' = ', 1)
            mm = re.match(r'^(.*[\s*&])([\w.$]+)((?:\[[^\]]*\])*)$', t)
            if mm:
                cur.locals[mm.group(2)] = (mm.group(1).strip() + mm.group(3))
                if st: cur.statics[mm.group(2)] = init
            continue
        pm = POS.match(t) or POS.search(t)
        s = Stmt(); s.bb = bb; s.file = pm.group(1) if pm else None; s.line = int(pm.group(2)) if pm else 0
        s.lhs = s.rhs = s.callee = s.args = s.targets = None
        t = MARK.sub('', t)
        while MARK.search(t): t = MARK.sub('', t)
        if t.startswith('//') or t.startswith('# '): continue
        m = re.match(r'^<?([\w.$]+)>? ?:$', t) or re.match(r'^([\w.$]+): \[', t) or re.match(r'^<([\w.$]+)>: ?', t)
        if m and not t.startswith('goto'):
            labels[m.group(1)] = bb
            continue
        s.text = t
        if t.startswith('if ('):
            s.kind = 'if'; s.rhs = t[4:t.rindex(')')] if not t.endswith(';') else t[4:-1]
            # the goto lines follow
            tg = []
            if 'goto' in t:
                tg = [int(x) for x in re.findall(r'goto <bb (\d+)>', t)]
            else:
                while i < len(lines) and len(tg) < 2:
                    g = re.search(r'goto <bb (\d+)>', lines[i])
                    if g: tg.append(int(g.group(1)))
                    i += 1
            s.targets = tg
        elif t.startswith('goto '):
            s.kind = 'goto'; g = re.search(r'<bb (\d+)>', t)
            s.targets = [int(g.group(1))] if g else []
        elif t.startswith('switch ('):
            s.kind = 'switch'
            k = t.index(') <'); s.rhs = t[8:k]
            s.args = []
            for part in split(t[k + 3:].rstrip('>;')):
                mm = re.match(r'^(default|case (.*?)): <?([\w.$]+)>?', part)
                if mm: s.args.append((mm.group(2), mm.group(3)))
            pend.append((s, [x for _, x in s.args])); s.targets = []
        elif t.startswith('return'):
            s.kind = 'return'; s.rhs = t[6:].strip(' ;')
        else:
            t = re.sub(r';? \[(static-chain:[^\]]*|tail call)\]', '', t).rstrip('; ')
            e = find_eq(t)
            if e >= 0:
                s.lhs = t[:e]; s.rhs = t[e + 3:]
            else: s.rhs = t
            m = CALL.match(s.rhs)
            if m and m.group(1) not in ('MAX_EXPR', 'MIN_EXPR', 'ABS_EXPR', 'NON_LVALUE_EXPR'):
                s.kind = 'call'; s.callee = m.group(1); s.args = split(m.group(2))
            elif s.lhs is not None: s.kind = 'asg'
            else: s.kind = 'other'
        cur.bbs[bb].append(s)
    for f in fns:
        for b, st in f.bbs.items():
            if st and st[-1].kind == 'call' and st[-1].callee in ('_gfortran_stop_string', '_gfortran_error_stop_string', '_gfortran_stop_numeric', '_gfortran_error_stop_numeric', 'exit', 'abort', '_gfortran_runtime_error', '_gfortran_runtime_error_at', '_gfortran_os_error_at'):
                s = Stmt(); s.kind = 'noreturn'; s.bb = b; s.file = st[-1].file; s.line = st[-1].line; s.text = 'noreturn'
                s.lhs = s.rhs = s.callee = s.args = None; s.targets = []
                st.append(s)
    return fns


class FMod:
    def __init__(self):
        t, self.bad = fort.dumps()
        self.fns = {}; self.dups = []
        for src in sorted(t):
            for f in parse(t[src], src):
                if f.asm in self.fns: self.dups.append((f.asm, src, self.fns[f.asm].src))
                else: self.fns[f.asm] = f


# ---- memory roots of an expression ------------------------------------------
def base(e):
    """(variable, dereferenced?) of an lvalue expression"""
    e = e.strip()
    e = re.sub(r'^\(\(?[\w ()=*&]+\*\)\s*', '', e) if e.startswith('((') and '*)' in e else e
    m = re.match(r'^MEM\s*(?:<[^>]*>)?\s*\[\s*(?:\([^)]*\)\s*)*&?([A-Za-z_][\w.$]*|_\d+)', e)
    if m: return m.group(1), '&' not in e.split(m.group(1))[0]
    m = re.match(r'^\(?\*+\(?([A-Za-z_][\w.$]*|_\d+)', e)
    if m: return m.group(1), True
    m = re.match(r'^\(\*([A-Za-z_][\w.$]*|_\d+)\)', e)
    if m: return m.group(1), True
    m = re.match(r'^([A-Za-z_][\w.$]*|_\d+)(->)?', e)
    if m: return m.group(1), bool(m.group(2)) or e.startswith(m.group(1) + '->')
    return None, False


def mentions(e):
    """[(variable, how)] of an rvalue: how = 'deref' (its target is read), 'addr' (address of it or of part of what it points to), 'val'"""
    out = []; e0 = re.sub(r'"(?:[^"\\]|\\.)*"', '""', e)
    for m in re.finditer(r'(&?)(\(?\*+|MEM\s*(?:<[^>]*>)?\s*\[\s*(?:\([^)]*\)\s*)*&?)?\(?([A-Za-z_][\w.$]*|_\d+)(->|)', e0):
        v = m.group(3); pre = e0[:m.start(3)]
        if re.search(r'[\w.]$', pre): continue
        star = bool(m.group(2)) or m.group(4) == '->'
        amp = bool(m.group(1))
        out.append((v, 'addr*' if amp and star else 'addr' if amp else 'deref' if star else 'val'))
    return out
