#!/usr/bin/env python3
"""Contract-based deductive verification of c-raii (see DESIGN.md).

  vc.py check <property> [--tier quick|thorough]     decide one property
  vc.py unit <unit> [--keep] [--trace]               run one proof unit (development)
  vc.py driver <property> [seconds]                  run one contract runtime check
  vc.py list                                         list units by property
"""
import sys, os, re, json, time, signal, subprocess, shutil, tempfile, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VC_REPO', '/repo')
UNITS = os.path.join(VERIF, 'units')
DRIVERS = os.path.join(VERIF, 'drivers')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

BASE_FLAGS = ['-std=gnu90', '-DUSE_DEBUG', '-DC_API=extern', '-DFORCEINLINE=inline',
              '-include', 'stdlib.h', '-include', 'malloc.h', '-include', 'stdbool.h']
def alloc_flags(prefix):
    r = []
    for p in ('RAII', 'ZE'):
        for a in ('malloc', 'free', 'realloc', 'calloc', 'memalign'):
            r.append('-D%s_%s=%s%s' % (p, a.upper(), prefix, a))
    return r

CBMC_FLAGS = ['--bounds-check', '--pointer-check', '--div-by-zero-check', '--signed-overflow-check',
              '--undefined-shift-check', '--unwinding-assertions', '--object-bits', '12']


# ---------------------------------------------------------------- unit files
class Loop:
    def __init__(self, func, idx):
        self.func, self.idx = func, idx
        self.inv, self.dec, self.havoc, self.ptr, self.obj = [], None, [], [], []
        self.pre, self.step, self.begin, self.nodec = [], [], [], False
        self.split, self.hcode = [], []

class Unit:
    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        text = open(path).read()
        m = re.search(r'[/(]\*@vc\b(.*?)@\*[/)]', text, re.S)
        if not m:
            raise SystemExit('no /*@vc header in ' + path)
        self.props, self.src, self.funcs, self.stubs, self.defs, self.flags = [], [], [], [], [], []
        self.unwind, self.unwindset, self.timeout, self.solver = 1, [], 300, 'cadical'
        self.loops, self.nloops, self.replay, self.tier = [], {}, False, 'quick'
        self.assume, self.bounded, self.doc, self.nochecks = [], None, [], []
        self.alloc = 'vc_'
        self.fsplit = None
        self.cases, self.subst, self.entry = None, [], []
        cur = None
        last = None
        for raw in m.group(1).split('\n'):
            line = raw.strip()
            if not line or line.startswith('#'):
                continue
            if line.startswith('\\'):           # continuation of the last text clause
                last[-1] += ' ' + line[1:].strip()
                continue
            k, _, v = line.partition(' ')
            v = v.strip()
            if k == 'prop': self.props += v.split()
            elif k == 'src': self.src += v.split()
            elif k == 'func': self.funcs += v.split()
            elif k == 'stub': self.stubs += v.split()
            elif k == 'def': self.defs += v.split()
            elif k == 'flag': self.flags += v.split()
            elif k == 'noflag': self.nochecks += v.split()
            elif k == 'unwind': self.unwind = int(v)
            elif k == 'unwindset': self.unwindset += v.split()
            elif k == 'timeout': self.timeout = int(v)
            elif k == 'solver': self.solver = v
            elif k == 'alloc': self.alloc = '' if v == 'libc' else v
            elif k == 'replay': self.replay = True
            elif k == 'tier': self.tier = v
            elif k == 'bounded': self.bounded = v
            elif k == 'subst':                  # subst FUNC /regex/replacement/ : see DESIGN, only for C division by constants
                f, _, rx = v.partition(' ')
                a = rx.strip().split(rx.strip()[0]); self.subst.append((f, a[1], a[2]))
            elif k == 'entry':                  # ghost code at the start of a function
                f, _, c = v.partition(' '); self.entry.append([f, c])
            elif k == 'cases':                  # cases NAME lo hi : one run per value, -DNAME=v
                a = v.split(); self.cases = (a[0], int(a[1]), int(a[2]))
            elif k == 'assume': self.assume.append(v); last = self.assume
            elif k == 'doc': self.doc.append(v); last = self.doc
            elif k == 'nloops':
                a = v.split(); self.nloops[a[0]] = int(a[1])
            elif k == 'loop':
                a = v.split(); cur = Loop(a[0], int(a[1])); self.loops.append(cur)
            elif k in ('inv', 'step', 'pre', 'begin', 'hcode'):
                last = getattr(cur, k); last.append(v)
            elif k == 'dec': cur.dec = v
            elif k == 'nodec': cur.nodec = True
            elif k == 'havoc': cur.havoc += v.split()
            elif k == 'ptr':
                for p in v.split():
                    cur.ptr.append(p.split('=', 1))
            elif k == 'obj': cur.obj += v.split()
            else:
                raise SystemExit('%s: unknown directive %r' % (path, k))


# ---------------------------------------------------------------- lexical annotator
def blank(text):
    """text with comments, strings and preprocessor lines blanked, same length"""
    out = list(text)
    i, n = 0, len(text)
    bol = True
    while i < n:
        c = text[i]
        if text.startswith('/*', i):
            j = text.find('*/', i + 2); j = n if j < 0 else j + 2
        elif text.startswith('//', i):
            j = text.find('\n', i); j = n if j < 0 else j
        elif c in '"\'':
            j = i + 1
            while j < n and text[j] != c:
                j += 2 if text[j] == '\\' else 1
            j += 1
        elif c == '#' and bol:
            j = i
            while True:
                e = text.find('\n', j)
                if e < 0: j = n; break
                if text[e - 1] == '\\': j = e + 1; continue
                j = e; break
        else:
            if c == '\n': bol = True
            elif not c.isspace(): bol = False
            i += 1
            continue
        for k in range(i, min(j, n)):
            if out[k] != '\n': out[k] = ' '
        i = j
    return ''.join(out)

def strip_comments(text):
    return re.sub(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|/\*.*?\*/|//[^\n]*',
                  lambda m: m.group(0) if m.group(0)[0] in '"\'' else re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)

def blank_inactive(path, text, b, flags):
    """blanks the lines of b that conditional compilation removes"""
    out, cont = [], False
    for n, l in enumerate(strip_comments(text).split('\n')):
        if cont or l.lstrip().startswith('#'):
            out.append(l); cont = l.rstrip().endswith('\\')
        else: out.append('VCMARK %d' % n)
    p = subprocess.run(['gcc', '-E', '-P', '-w', '-x', 'c'] + flags + ['-I' + os.path.dirname(path), '-I' + os.path.join(REPO, 'include'), '-'],
                       input='\n'.join(out).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if p.returncode: raise Undecided('preprocessing fails: ' + p.stderr.decode('latin-1')[-300:])
    act = {int(x) for x in re.findall(rb'VCMARK (\d+)', p.stdout)}
    bl = b.split('\n')
    return '\n'.join(l if n in act or out[n][:6] != 'VCMARK' else ' ' * len(l) for n, l in enumerate(bl))

def match(b, i, op, cl):
    d = 0
    for k in range(i, len(b)):
        if b[k] == op: d += 1
        elif b[k] == cl:
            d -= 1
            if d == 0: return k
    raise Undecided('unbalanced source')

class Undecided(Exception):
    pass

def find_func(b, name):
    """(offset of the name in the definition, body start, body end)"""
    for m in re.finditer(r'\b%s\s*\(' % re.escape(name), b):
        p = match(b, m.end() - 1, '(', ')')
        k = p + 1
        while k < len(b) and b[k].isspace(): k += 1
        if k < len(b) and b[k] == '{':
            # a definition starts at file scope
            depth = b[:m.start()].count('{') - b[:m.start()].count('}')
            if depth == 0 or re.search(r'extern\s*$', b[:m.start()]):
                return m.start(), k, match(b, k, '{', '}')
    return None

def stmt_end(b, i):
    """end offset (exclusive) of the statement starting at i"""
    while b[i].isspace(): i += 1
    if b[i] == '{': return match(b, i, '{', '}') + 1
    m = re.match(r'(if|while|for|switch)\b', b[i:])
    if m:
        p = b.index('(', i); e = match(b, p, '(', ')') + 1
        e = stmt_end(b, e)
        if m.group(1) == 'if':
            m2 = re.match(r'\s*else\b', b[e:])
            if m2: e = stmt_end(b, e + m2.end())
        return e
    m = re.match(r'do\b', b[i:])
    if m:
        e = stmt_end(b, i + 2)
        p = b.index('(', e); q = match(b, p, '(', ')')
        return b.index(';', q) + 1
    d = 0
    for k in range(i, len(b)):
        if b[k] in '({[': d += 1
        elif b[k] in ')}]': d -= 1
        elif b[k] == ';' and d == 0: return k + 1
    raise Undecided('unbalanced statement')

def find_loops(b, s, e):
    """loops of b[s:e] in lexical order: (kind, keyword offset, header '(' , ')' , body start, end)"""
    res, dowhile = [], set()
    for m in re.finditer(r'\b(while|for|do)\b', b[s:e]):
        o = s + m.start()
        if m.group(1) == 'do':
            be = stmt_end(b, o + 2)
            w = re.compile(r'\s*while\b').match(b, be)
            p = b.index('(', be); q = match(b, p, '(', ')')
            dowhile.add(w.end() - 5)
            res.append(('do', o, p, q, o + 2, b.index(';', q) + 1))
        else:
            if m.group(1) == 'while' and o in dowhile: continue
            p = b.index('(', o); q = match(b, p, '(', ')')
            res.append((m.group(1), o, p, q, q + 1, stmt_end(b, q + 1)))
    return res

ASSIGN = re.compile(r'(?<![\w.>\]\)])([A-Za-z_]\w*)\s*(?:=(?!=)|\+=|-=|\*=|/=|%=|<<=|>>=|&=|\|=|\^=|\+\+|--)'
                    r'|(?:\+\+|--)\s*\(?\s*([A-Za-z_]\w*)(?!\w*\s*(?:->|\.|\[))')
def modified(b, s, e):
    """names of variables assigned in b[s:e] but not declared there"""
    names = set()
    seg = b[s:e]
    for m in ASSIGN.finditer(seg):
        n = m.group(1) or m.group(2)
        pre = seg[:m.start()].rstrip()
        if m.group(1):
            if pre.endswith(('.', '->')): continue
            w = re.search(r'([A-Za-z_]\w*)\s*\**\s*$', pre)
            # preceded by a type name: a declaration with initialiser
            if w and w.group(1) not in ('return', 'else', 'do', 'case', 'sizeof', 'goto') and \
               not pre.endswith((')', ';', '{', '}', '(')) and (w.group(0).rstrip().endswith('*') is False or
               re.search(r'[;{}]\s*(const\s+|static\s+|struct\s+|volatile\s+|unsigned\s+)*[A-Za-z_]\w*\s*\**\s*$', pre)):
                continue
            if pre.endswith('*'):
                # *p = ... : a write through memory, not a local
                continue
        names.add(n)
    # declared in the loop
    decl = set(re.findall(r'(?<=[;{(])\s*(?:const\s+|static\s+|volatile\s+|unsigned\s+|struct\s+)*[A-Za-z_]\w*\s*\**\s*([A-Za-z_]\w*)\s*[;\[=]', seg))
    decl -= {'return'}
    return {n for n in names if n not in decl}

def src_path(s):
    return os.path.join(REPO, 'include' if s.endswith('.h') else 'src', s)

def annotate(unit, src, loops_h, nid):
    path = src_path(src)
    text = open(path).read()
    b = blank_inactive(path, text, blank(text), BASE_FLAGS + alloc_flags(unit.alloc) + ['-D' + d for d in unit.defs])
    edits = []            # (offset, length, replacement)
    for st in unit.stubs:
        f = find_func(b, st)
        if f: edits.append((f[0], len(st), st + '__real'))
    for f, code in unit.entry:
        d = find_func(b, f)
        if d: edits.append((d[1] + 1, 0, ' ' + code + ' '))
    for f, rx, rep in unit.subst:
        d = find_func(b, f)
        if d:
            for m in re.finditer(rx, b[d[1]:d[2]]):
                edits.append((d[1] + m.start(), m.end() - m.start(), m.expand(rep)))
    for f, n in unit.nloops.items():
        d = find_func(b, f)
        if d is None: continue
        k = len(find_loops(b, d[1], d[2]))
        if k != n:
            raise Undecided('%s has %d loops, its contract annotates %d' % (f, k, n))
    for lp in unit.loops:
        d = find_func(b, lp.func)
        if d is None: continue
        ls = find_loops(b, d[1], d[2])
        if lp.idx >= len(ls):
            raise Undecided('%s: loop %d not found' % (lp.func, lp.idx))
        lp.found = True
        kind, o, p, q, bs, be = ls[lp.idx]
        i = nid[0]; nid[0] += 1
        tag = '%s.loop%d' % (lp.func, lp.idx)
        # names changed by the loop; for loops: the initialiser is outside
        hs = p
        if kind == 'for':
            semi1 = find_semi(b, p + 1, q); semi2 = find_semi(b, semi1 + 1, q)
            hs = semi1
        mod = modified(b, hs, be)
        known = set(lp.havoc) | {x[0] for x in lp.ptr}
        extra = sorted(n for n in mod if n not in known)
        gen_loop(loops_h, lp, i, tag, extra)
        H = 'VC_L%d' % i
        if kind == 'while':
            edits.append((o, 5, 'for (vc_l%d.phase = 0; %s && ' % (i, H)))
            # while (C) -> for (..; H && (C); )
            edits.append((q, 1, '); )'))
        elif kind == 'for':
            init = text[p + 1:semi1]; cond = text[semi1 + 1:semi2]
            edits.append((p + 1, 0, 'vc_l%d.phase = 0%s' % (i, ', ' if init.strip() else '')))
            edits.append((semi1 + 1, semi2 - semi1 - 1,
                          ' %s%s' % (H, ' && (' + cond.strip() + ')' if cond.strip() else '')))
        else:
            raise Undecided('do loops are not cut')
    # while edit inserts "for (...; H && " before the '(' of the condition
    out, pos = [], 0
    for off, ln, rep in sorted(edits, key=lambda x: (x[0], x[1])):
        out.append(text[pos:off]); out.append(rep); pos = off + ln
    out.append(text[pos:])
    return ''.join(out)

def find_semi(b, s, e):
    d = 0
    for k in range(s, e):
        if b[k] in '([{': d += 1
        elif b[k] in ')]}': d -= 1
        elif b[k] == ';' and d == 0: return k
    raise Undecided('for header')

def gen_loop(h, lp, i, tag, extra):
    h.append('static vc_loop_t vc_l%d;' % i)
    A = []
    for k, inv in enumerate(lp.inv):
        A.append('__CPROVER_assert((%s), "VC %s invariant %d holds on entry"); ' % (inv, tag, k))
    base = ''.join('%s ' % s for s in lp.pre) + ''.join(A)
    ex = []
    for o in lp.obj: ex.append('!VC_INOBJ(vc_l%d.fp, %s)' % (i, o))
    for v in lp.havoc + extra: ex.append('!VC_INLV(vc_l%d.fp, %s)' % (i, v))
    for p, _ in lp.ptr: ex.append('!VC_INLV(vc_l%d.fp, %s)' % (i, p))
    hv = 'vc_l%d.fp = vc_pick(); ' % i
    hv += 'if (vc_l%d.fp && %s) vc_l%d.fv = *vc_l%d.fp; else vc_l%d.fp = 0; ' % (i, ' && '.join(ex) or '1', i, i, i)
    for v in lp.havoc + extra: hv += 'VC_HAVOC(%s); ' % v
    for p, bs in lp.ptr:
        if bs.endswith('?'):
            bs = bs[:-1]
            hv += 'if (nd_bool()) { VC_PTR(%s, %s); } else { %s = 0; } ' % (p, bs, p)
        else:
            hv += 'VC_PTR(%s, %s); ' % (p, bs)
    for o in lp.obj: hv += '__CPROVER_havoc_object((void *)(%s)); ' % o
    hv += ''.join('%s ' % s for s in lp.hcode)
    for inv in lp.inv: hv += '__CPROVER_assume((%s)); ' % inv
    hv += ''.join('%s ' % s for s in lp.begin)
    if lp.dec: hv += 'vc_l%d.dec = (long)(%s); ' % (i, lp.dec)
    st = ''.join('%s ' % s for s in lp.step)
    st += '__CPROVER_assert(0, "REACH %s end of an arbitrary iteration"); ' % tag
    for k, inv in enumerate(lp.inv):
        st += '__CPROVER_assert((%s), "VC %s invariant %d is preserved"); ' % (inv, tag, k)
    if lp.dec:
        st += '__CPROVER_assert(vc_l%d.dec >= 0 && (long)(%s) < vc_l%d.dec, "VC %s variant decreases"); ' % (i, lp.dec, i, tag)
    st += '__CPROVER_assert(!vc_l%d.fp || *vc_l%d.fp == vc_l%d.fv, "VC %s frame: nothing else changes"); ' % (i, i, i, tag)
    st += '__CPROVER_assume(0); '
    h.append('#define VC_L%d ({ if (!vc_l%d.phase) { vc_l%d.phase = 1; %s%s} else { %s} 1; })' % (i, i, i, base, hv, st))


# ---------------------------------------------------------------- running
def run(cmd, timeout, cwd=None, mem_gb=12, env=None):
    t0 = time.time()
    try:
        p = subprocess.run(['bash', '-c', 'ulimit -v %d; exec "$@"' % (mem_gb * 1024 * 1024), 'x'] + cmd,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode('latin-1'), time.time() - t0
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b'').decode('latin-1'), time.time() - t0

def unit_cflags(unit, tmp):
    return BASE_FLAGS + alloc_flags(unit.alloc) + ['-I' + os.path.join(REPO, 'include'), '-I' + tmp, '-I' + HERE,
            '-I' + UNITS] + ['-D' + d for d in unit.defs]

def prepare(unit, tmp):
    loops_h, nid = [], [0]
    for lp in unit.loops: lp.found = False
    names = {}
    for s in unit.src:
        names[s] = annotate(unit, s, loops_h, nid)
    for lp in unit.loops:
        if not lp.found: raise Undecided('function %s not found' % lp.func)
    allb = ''.join(blank(open(src_path(s)).read()) for s in unit.src)
    for f in unit.funcs:
        if not re.search(r'\b%s\b' % re.escape(f), allb + open_headers()):
            raise Undecided('function %s not found' % f)
    for s, t in names.items():
        open(os.path.join(tmp, 'src_' + s), 'w').write('#line 1 "%s"\n' % src_path(s) + t)
    open(os.path.join(tmp, 'vc_loops.h'), 'w').write('\n'.join(loops_h) + '\n')

_h = None
def open_headers():
    global _h
    if _h is None:
        _h = ''.join(open(f).read() for f in glob.glob(os.path.join(REPO, 'include', '*.h')))
    return _h

LINE = re.compile(r'^\[(?P<id>[^\]]+)\] (?:line (?P<line>\d+) )?(?P<desc>.*): (?P<st>SUCCESS|FAILURE|UNKNOWN|ERROR)$')

def solve(unit, tmp, gb, tag, extra, trace=None):
    cmd = ['cbmc', gb] + [f for f in CBMC_FLAGS if f not in unit.nochecks] + unit.flags + ['--unwind', str(unit.unwind)]
    for u in unit.unwindset: cmd += ['--unwindset', u]
    sol = unit.solver
    if sol in ('z3', 'cvc5'): cmd += ['--' + sol]
    elif sol != 'minisat': cmd += ['--sat-solver', sol]
    cmd += extra
    if trace: cmd += ['--trace'] + sum([['--property', t] for t in trace], [])
    rc, out, dt = run(cmd, unit.timeout, cwd=tmp)
    return cmd, rc, out, dt

def run_case(unit, tmp, case, keep_out=None):
    tag = unit.name + ('' if case is None else '_%d' % case)
    gb = os.path.join(tmp, tag + '.gb')
    defs = [] if case is None else ['-D%s=%d' % (unit.cases[0], case)]
    cmd = ['goto-cc', '-w', '--function', 'harness'] + unit_cflags(unit, tmp) + defs + ['-o', gb, unit.path]
    rc, out, dt = run(cmd, 120, cwd=tmp)
    if rc != 0:
        return dict(status='undecided', why='annotated source does not compile: ' + '; '.join([l for l in out.split('\n') if 'rror' in l][:4]), tag=tag, time=dt, cc=cmd)
    # only the functions the harness reaches: obligations of unrelated code are not counted
    run(['goto-instrument', '--drop-unused-functions', gb, gb], 120, cwd=tmp)
    cmd, rc, out, dt = solve(unit, tmp, gb, tag, [])
    if keep_out: open(keep_out + tag + '.out', 'w').write(out)
    r = dict(tag=tag, time=dt, cmd=cmd, cc=None, case=case)
    props = []
    for l in out.split('\n'):
        m = LINE.match(l.strip())
        if m: props.append((m.group('id'), m.group('line'), m.group('desc'), m.group('st')))
    if rc not in (0, 10) or not props:
        r.update(status='undecided', why='timeout after %d s' % unit.timeout if rc is None else 'verifier error: ' + out[-1500:])
        return r
    reach = [p for p in props if p[2].startswith('REACH ')]
    # line duplicates (an assertion instantiated in two functions) are separate properties
    obl = [p for p in props if not p[2].startswith('REACH ')]
    failed = [p for p in obl if p[3] == 'FAILURE']
    unk = [p for p in obl if p[3] not in ('SUCCESS', 'FAILURE')]
    unreached = [p for p in reach if p[3] == 'SUCCESS']
    r.update(obligations=len(obl), discharged=len(obl) - len(failed) - len(unk), failed=failed,
             named=sum(1 for p in obl if p[2].startswith('VC ')), reach=len(reach) - len(unreached))
    unwind = [p for p in failed if '.unwind.' in p[0] or 'unwinding assertion' in p[2]]
    nobody = [p for p in failed if 'no-body' in p[0] or 'no body for callee' in p[2] or '.no-body.' in p[0]]
    if not failed and not unk and not unreached and reach and r['named']:
        r['status'] = 'proved'
    elif unwind or nobody or unk:
        r.update(status='undecided', why='outside the contract: %s' % '; '.join('%s %s' % (p[0], p[2]) for p in (unwind + nobody + unk)[:5]))
    elif failed:
        r['status'] = 'failed'
        r['gb'] = gb
    elif unreached:
        r.update(status='unreached', why='no longer reachable: ' + '; '.join(p[2][6:] for p in unreached))
    else:
        r.update(status='undecided', why='no obligations or no reachability marker')
    return r

def run_coq(unit, tmp):
    """a lemma in real arithmetic that a unit refers to: independent of the source, checked by Coq"""
    text = open(unit.path).read()
    r = dict(tag=unit.name, cmd=['coqc', unit.path], named=0, reach=0, failed=[], status='undecided', time=0.0)
    f = os.path.join(tmp, os.path.basename(unit.path)); shutil.copy(unit.path, f)
    if re.search(r'\b(Admitted|Axiom|Parameter|Hypothesis|admit|Conjecture)\b', text):
        r['why'] = 'not a complete proof'; return r
    rc, out, r['time'] = run(['coqc', '-q', f], unit.timeout, cwd=tmp)
    n = len(re.findall(r'^(?:Lemma|Theorem)\b', text, re.M))
    if rc == 0 and n: r.update(status='proved', obligations=n, discharged=n, named=n)
    else: r['why'] = 'coqc: ' + out[-400:]
    return r

def run_unit(unit, tmp, pool=None, keep_out=None):
    d = os.path.join(tmp, unit.name); os.makedirs(d, exist_ok=True)
    if unit.path.endswith('.v'): return [pool.submit(run_coq, unit, d).result() if pool else run_coq(unit, d)]
    try:
        prepare(unit, d)
    except Undecided as e:
        return [dict(status='undecided', why=str(e), tag=unit.name, time=0.0)]
    cs = [None] if not unit.cases else list(range(unit.cases[1], unit.cases[2] + 1))
    if pool: fs = [pool.submit(run_case, unit, d, c, keep_out) for c in cs]; return [f.result() for f in fs]
    return [run_case(unit, d, c, keep_out) for c in cs]


# ---------------------------------------------------------------- counterexamples
NATIVE_MAIN = r'''
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>
static FILE *vc_f;
uint64_t vc_next(void) { unsigned long long x; if (fscanf(vc_f, "%llu", &x) != 1) return 0; return x; }
void vc_fail(const char *d) { fprintf(stderr, "VC-FAIL %s\n", d); _exit(1); }
void vc_skip(void) { fprintf(stderr, "VC-SKIP precondition not met\n"); _exit(0); }
extern void harness(void);
int main(int c, char **v) { vc_f = fopen(v[1], "r"); harness(); return 0; }
'''

def replay_native(unit, case, r, tmp, prop):
    """replay the verifier's counterexample on the unmodified source; returns path or None"""
    d = os.path.join(tmp, unit.name, 'native'); os.makedirs(d, exist_ok=True)
    first = [p[0] for p in r['failed'] if p[2].startswith('VC ')][:1] or [r['failed'][0][0]]
    cmd, rc, out, dt = solve(unit, tmp, r['gb'], r['tag'], [], trace=first)
    vals = re.findall(r'^\s*vc_in=(\d+)', out, re.M)
    if os.environ.get('VC_DEBUG'): open(os.path.join(d, 'trace.out'), 'w').write(out)
    inp = os.path.join(d, 'input.txt'); open(inp, 'w').write('\n'.join(vals) + '\n')
    for s in unit.src:
        open(os.path.join(d, 'src_' + s), 'w').write('#include "%s"\n' % src_path(s))
    open(os.path.join(d, 'vc_loops.h'), 'w').write('')
    open(os.path.join(d, 'main.c'), 'w').write(NATIVE_MAIN)
    defs = ['-DVC_NATIVE'] + ([] if case is None else ['-D%s=%d' % (unit.cases[0], case)])
    exe = os.path.join(d, 'replay')
    cflags = BASE_FLAGS + alloc_flags('') + ['-I' + os.path.join(REPO, 'include'), '-I' + d, '-I' + HERE, '-I' + UNITS]
    others = [src_path(s) for s in ('raii.c', 'except.c', 'arena.c', 'swar.c') if s not in unit.src]
    cmd = ['gcc', '-w', '-g', '-O1', '-fsanitize=undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined'] + \
        cflags + defs + ['-o', exe, unit.path, os.path.join(d, 'main.c')] + others + ['-lpthread']
    rc, o, dt = run(cmd, 120, cwd=d)
    if rc != 0: return None, 'replay does not build: ' + o[-600:]
    rc, o, dt = run([exe, inp], 20, cwd=d)
    if rc == 0: return None, 'counterexample did not reproduce natively: ' + o[-300:]
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', 'replay', '%s-%s.txt' % (prop, r['tag']))
    open(path, 'w').write('property %s, unit %s: the verifier counterexample fails on the real code\n' % (prop, unit.name)
        + 'failed obligations:\n' + ''.join('  [%s] line %s %s\n' % p[:3] for p in r['failed'])
        + 'harness inputs in order (nd values): %s\n' % ' '.join(vals)
        + 'native result (exit %s):\n%s\n' % (rc, o[-3000:])
        + 'build: %s\nrun: %s input.txt   (one value per line)\n' % (' '.join(cmd), exe))
    return path, ''


# ---------------------------------------------------------------- contract runtime checks
LIB = ('raii.c', 'except.c', 'arena.c', 'swar.c', 'future.c')
def build_lib(tmp, src, san):
    o = os.path.join(tmp, src + '.o')
    cmd = ['gcc', '-w', '-g', '-O1', '-fno-omit-frame-pointer'] + san + BASE_FLAGS + alloc_flags('vcd_') + \
        ['-include', os.path.join(HERE, 'vcd_alloc.h'), '-I' + os.path.join(REPO, 'include'), '-c', src_path(src), '-o', o]
    rc, out, dt = run(cmd, 120, mem_gb=8, cwd=tmp)
    return o, rc, out

def run_group(cmd, timeout, cwd, env):
    """a program and whatever it starts: nothing is left running"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, start_new_session=True)
    try: return (lambda o: (p.returncode, o[0].decode('latin-1')))(p.communicate(timeout=timeout))
    except BaseException:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()
        raise

def run_driver(prop, tmp, secs, seed):
    src = os.path.join(DRIVERS, prop + '.c')
    if not os.path.exists(src): return dict(status='none')
    d = os.path.join(tmp, 'driver_' + prop); os.makedirs(d, exist_ok=True)
    san_all = ['-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined']
    san_ub = ['-fsanitize=undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined']
    head = open(src).read(2000)
    noasan = 'VCD_NOASAN' in head
    single = re.findall(r'VCD_INCLUDES (\S+)', head)
    objs = []
    with ThreadPoolExecutor(5) as ex:
        for s, (o, rc, out) in zip(LIB, ex.map(lambda s: build_lib(d, s, san_ub if (s == 'swar.c' or noasan) else san_all), LIB)):
            if rc != 0: return dict(status='broken', why='%s does not build: %s' % (s, out[-800:]))
            if s not in single: objs.append(o)
    exe = os.path.join(d, 'driver')
    cmd = ['gcc', '-w', '-g', '-O1'] + (san_ub if noasan else san_all) + BASE_FLAGS + alloc_flags('vcd_') + \
        ['-include', os.path.join(HERE, 'vcd_alloc.h'), '-DVCD_REPO="%s"' % REPO,
         '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-I' + HERE, '-o', exe, src, os.path.join(HERE, 'vcd.c')] + objs + ['-lpthread', '-lm']
    rc, out, dt = run(cmd, 120, mem_gb=8, cwd=d)
    if rc != 0: return dict(status='broken', why='driver does not build: ' + out[-1500:])
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0:exitcode=78')
    try:
        rc, out = run_group([exe, str(seed), str(secs)], secs * 4 + 60, d, env)
    except subprocess.TimeoutExpired as e:
        return dict(status='broken', why='driver timeout')
    m = re.search(r'VCD trials=(\d+) distinct=(\d+)', out)
    r = dict(trials=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0, out=out)
    if rc == 0 and m: r['status'] = 'ok'
    elif rc == 1 and 'VCD-FAIL' in out: r['status'] = 'failed'
    else: r.update(status='broken', why='exit %s: %s' % (rc, out[-800:]))
    return r

def run_tsan(prop, tmp, secs, seeds):
    """the driver of PROP with the library under ThreadSanitizer: finds inputs and schedules with a data race. Only a race
    report or a broken contract counts; anything the sanitizer itself cannot do is ignored."""
    src = os.path.join(DRIVERS, prop + '.c')
    if not os.path.exists(src): return dict(status='none')
    head = open(src).read(2000)
    m = re.search(r'VCD_TSAN(\S*)', head)
    if not m: return dict(status='none')
    d = os.path.join(tmp, 'tsan_' + prop); os.makedirs(d, exist_ok=True)
    f = ['-w', '-g', '-O1'] + BASE_FLAGS + alloc_flags('vcd_') + ['-include', os.path.join(HERE, 'vcd_alloc.h'), '-I' + os.path.join(REPO, 'include')]
    own = f + ['-DVCD_EXEC', '-DVCD_REPO="%s"' % REPO, '-I' + os.path.join(REPO, 'src'), '-I' + HERE]
    jobs = [(f + ['-fsanitize=thread'], src_path(s), os.path.join(d, s + '.o')) for s in LIB]
    jobs.append((own + (['-fsanitize=thread'] if m.group(1) == '_DRIVER' else []), src, os.path.join(d, 'driver.o')))
    jobs.append((own, os.path.join(HERE, 'vcd.c'), os.path.join(d, 'vcd.o')))
    with ThreadPoolExecutor(7) as ex:
        rs = list(ex.map(lambda j: run(['gcc'] + j[0] + ['-c', j[1], '-o', j[2]], 120, mem_gb=8, cwd=d), jobs))
    exe = os.path.join(d, 'driver')
    if any(r[0] for r in rs) or run(['gcc', '-fsanitize=thread', '-o', exe] + [j[2] for j in jobs] + ['-lpthread', '-lm'], 120, mem_gb=8, cwd=d)[0]:
        return dict(status='unavailable', why='does not build with the thread sanitizer')
    env = dict(os.environ, TSAN_OPTIONS='halt_on_error=1 exitcode=79 report_signal_unsafe=0')
    def one(seed):
        w = os.path.join(d, 's%d' % seed); os.makedirs(w, exist_ok=True)
        try:
            return run_group([exe, str(seed), str(secs)], secs * 4 + 60, w, env)
        except (subprocess.TimeoutExpired, OSError):
            return None, ''
    n = 0
    with ThreadPoolExecutor(4) as ex:
        for rc, out in ex.map(one, seeds):
            m = re.search(r'VCD trials=(\d+)', out)
            if m: n += int(m.group(1))
            if rc == 1 and 'FATAL: ThreadSanitizer' not in out and 'CHECK failed' not in out and \
               ('WARNING: ThreadSanitizer' in out or re.search(r'^exit status 9 ', out, re.M)):
                return dict(status='failed', out=out, trials=n)
    return dict(status='ok' if n else 'unavailable', trials=n)


# ---------------------------------------------------------------- properties
def all_units():
    return [Unit(p) for p in sorted(glob.glob(os.path.join(UNITS, 'c*.[cv]')))]

TRUST = ['CBMC 6.11 (goto-cc front end, symbolic execution, memory model, bit-blasting) and its SAT back end',
         'the extraction: loop headers get a cut by invariant, definitions of callees under contract are renamed; no other text of the function changes',
         'x86-64 data model, little endian, default rounding; compiler correctness',
         'contracts of libc functions used as stubs (allocation, memcpy, strstr, setjmp/longjmp as stated per unit)']

def check(prop, tier):
    t0 = time.time()
    units = [u for u in all_units() if prop in u.props and (tier == 'thorough' or u.tier == 'quick')]
    tmp = tempfile.mkdtemp(prefix='vc-%s-' % prop)
    try:
        return check_in(prop, tier, units, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def known_findings(prop):
    r = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) (.*)', l)
            if m and m.group(1) == prop: r.append(m.group(2))
    return r

def check_in(prop, tier, units, tmp, t0):
    drv_secs = 6 if tier == 'quick' else 60
    pool = ThreadPoolExecutor(7)
    upool = ThreadPoolExecutor(16)
    fu = [(u, upool.submit(run_unit, u, tmp, pool)) for u in units]
    fd = upool.submit(run_driver, prop, tmp, drv_secs, SEED)
    results = [(u, f.result()) for u, f in fu]
    drv = fd.result()
    proved, failed, undecided = [], [], []
    for u, rs in results:
        for r in rs:
            (proved if r['status'] == 'proved' else failed if r['status'] == 'failed' else undecided).append((u, r))
    violations = []
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    notes = []
    # 1. a failed obligation: look for the failing input on the real code
    confirmed = None
    tsan = run_tsan(prop, tmp, drv_secs, [SEED * 8 + i for i in range(4)])
    if tsan['status'] == 'failed': drv = tsan
    if failed:
        for u, r in failed:
            if u.replay:
                path, why = replay_native(u, r.get('case'), r, tmp, prop)
                if path: confirmed = path; break
                notes.append('%s: %s' % (r['tag'], why))
    if not confirmed and (failed or undecided) and drv['status'] == 'ok':
        drv = run_driver(prop, tmp, 45 if tier == 'quick' else 240, SEED + 1)
        if drv['status'] == 'ok' and tsan['status'] == 'ok':
            tsan = run_tsan(prop, tmp, 40 if tier == 'quick' else 240, [SEED * 8 + 4 + i for i in range(4)])
            if tsan['status'] == 'failed': drv = tsan
    if not confirmed and drv['status'] == 'failed':
        path = os.path.join(VERIF, 'evidence', 'replay', '%s-input.txt' % prop)
        with open(path, 'w') as f:
            f.write('property %s: contract violated on the real code by this input (driver drivers/%s.c)\n' % (prop, prop))
            f.write(drv['out'][-6000:] + '\n')
            for u, r in failed:
                f.write('failed obligations of unit %s:\n' % r['tag'] + ''.join('  [%s] line %s %s\n' % p[:3] for p in r['failed']))
            for u, r in undecided: f.write('undecided unit %s: %s\n' % (r['tag'], r.get('why')))
        confirmed = path
    if confirmed:
        violations.append('VIOLATION property=%s replay=%s' % (prop, confirmed))
    elif failed:
        path = os.path.join(VERIF, 'evidence', 'replay', '%s-obligation.txt' % prop)
        with open(path, 'w') as f:
            f.write('property %s: obligations that the verifier no longer discharges; no failing input was found\n' % prop)
            for u, r in failed:
                f.write('unit %s (%s)\n' % (r['tag'], ' '.join(r['cmd'])))
                f.write(''.join('  [%s] line %s %s: %s\n' % p for p in r['failed']))
            f.write('\n'.join(notes) + '\n')
        violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    kf = known_findings(prop)
    for k in kf: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    # evidence
    ob = sum(r.get('obligations', 0) for _, rs in results for r in rs)
    dis = sum(r.get('discharged', 0) for _, rs in results for r in rs)
    fu_ = sorted({f for u, _ in proved for f in u.funcs if not u.bounded})
    bnd = sorted({'%s (%s)' % (f, u.bounded) for u, _ in proved for f in u.funcs if u.bounded})
    cov = dict(obligations=ob, discharged=dis,
        checker_cmd='python3 tool/vc.py check %s: goto-cc + cbmc per unit, e.g. %s' % (prop, ' '.join(proved[0][1]['cmd']) if proved else '-'),
        trusted_base=TRUST + sorted({a for u in units for a in u.assume}),
        functions_under_contract=fu_, functions_bounded_only=bnd,
        units=[dict(unit=r['tag'], status=r['status'], obligations=r.get('obligations', 0), discharged=r.get('discharged', 0),
                    contract_obligations=r.get('named', 0), reachability_points=r.get('reach', 0), back_end='Coq/Flocq' if u.path.endswith('.v') else 'CBMC/' + u.solver,
                    seconds=round(r['time'], 2), what=' '.join(u.doc), why=r.get('why', '')) for u, rs in results for r in rs],
        solver_seconds=round(sum(r['time'] for _, rs in results for r in rs), 2),
        undecided_units=[r['tag'] + ': ' + str(r.get('why')) for _, r in undecided],
        failed_obligations=['%s [%s] %s' % (r['tag'], p[0], p[2]) for _, r in failed for p in r['failed']],
        runtime_contract_check=dict(status=drv['status'], trials=drv.get('trials', 0), distinct=drv.get('distinct', 0), why=drv.get('why', ''),
            role='executes the same contracts on concrete inputs against the real library: validates the assumed contracts, finds failing inputs for failed obligations, and is the bounded stand-in for undecided units'),
        thread_sanitizer=dict(status=tsan['status'], trials=tsan.get('trials', 0), why=tsan.get('why', ''),
            role='the same programs with the library under ThreadSanitizer: finds the schedule for a failed memory-order obligation') if tsan['status'] != 'none' else None,
        known_findings=kf, notes=notes)
    if cov['thread_sanitizer'] is None: del cov['thread_sanitizer']
    level = 'proof' if not undecided else 'other'
    if undecided:
        cov['explanation'] = 'bounded stand-in: %d unit(s) could not be decided on the changed source (%s); the contracts were executed on %d generated inputs instead' % (
            len(undecided), '; '.join(r['tag'] for _, r in undecided), drv.get('trials', 0))
    ev = dict(property=prop, tier=tier, seed=SEED, level=level, coverage=cov,
              assumptions=sorted({a for u in units for a in u.assume}), wall_s=round(time.time() - t0, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d units, %d obligations, %d discharged, %d undecided units, runtime check %s (%d trials), %.1f s' %
          (prop, len(proved) + len(failed) + len(undecided), ob, dis, len(undecided), drv['status'], drv.get('trials', 0), time.time() - t0))
    for u, r in undecided: print('  undecided %s: %s' % (r['tag'], str(r.get('why'))[:400].replace('\n', ' ')))
    for u, r in failed:
        for p in r['failed'][:8]: print('  failed %s [%s] line %s %s' % (r['tag'], p[0], p[1], p[2]))
    if violations:
        for v in violations: print(v)
        return 1
    if undecided and drv['status'] not in ('ok',):
        print('no answer: %s' % drv.get('why', 'no stand-in'))
        return 2
    if drv['status'] == 'broken':
        print('no answer: runtime contract check broken: %s' % drv.get('why'))
        return 2
    return 0

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a: tier = a[a.index('--tier') + 1]
        return check(a[1], tier)
    if a[0] == 'list':
        for u in all_units(): print(u.name, u.props, u.tier, 'bounded' if u.bounded else '')
        return 0
    if a[0] == 'driver':
        tmp = tempfile.mkdtemp(prefix='vcd-')
        r = run_driver(a[1], tmp, int(a[2]) if len(a) > 2 else 6, SEED)
        t = run_tsan(a[1], tmp, int(a[2]) if len(a) > 2 else 6, [SEED * 8 + i for i in range(4)])
        if t['status'] != 'none': print('tsan', t['status'], t.get('trials'), t.get('out', '')[-6000:])
        if t['status'] == 'failed': r = t
        print(r.get('out', '')[-6000:]); print(r['status'], r.get('why', ''), r.get('trials'))
        shutil.rmtree(tmp, ignore_errors=True)
        return 0
    if a[0] == 'unit':
        rc = 0
        for n in [x for x in a[1:] if not x.startswith('--')]:
            u = Unit(os.path.join(UNITS, n + ('.c' if os.path.exists(os.path.join(UNITS, n + '.c')) else '.v')))
            tmp = '/tmp/vcu' if '--keep' in a else tempfile.mkdtemp(prefix='vcu-')
            os.makedirs(tmp, exist_ok=True)
            with ThreadPoolExecutor(7) as pool:
                rs = run_unit(u, tmp, pool, keep_out=os.path.join(tmp, ''))
            ag = {}
            for r in rs: ag.setdefault(r['status'], []).append(r)
            for k, l in ag.items():
                if len(l) > 3:
                    print('%-24s %-10s x%d obl %s/%s max %.1fs total %.1fs %s' % (u.name, k, len(l), sum(r.get('discharged') or 0 for r in l), sum(r.get('obligations') or 0 for r in l), max(r['time'] for r in l), sum(r['time'] for r in l), [r['case'] for r in l if k != 'proved' and 'case' in r]))
                    if k == 'proved': rs = [r for r in rs if r not in l]
                    else: rs = [r for r in rs if r not in l[2:]]
            for r in rs:
                print('%-24s %-10s obl %s/%s named %s reach %s %.1fs %s' % (r['tag'], r['status'], r.get('discharged'), r.get('obligations'), r.get('named'), r.get('reach'), r['time'], str(r.get('why', ''))[:1500]))
                for p in r.get('failed', [])[:15]: print('   FAILED [%s] line %s %s' % p[:3])
                if '--trace' in a and r.get('gb') and r.get('failed'):
                    first = [p[0] for p in r['failed'] if p[2].startswith('VC ')][:1] or [r['failed'][0][0]]
                    c, rc_, out, dt = solve(u, tmp, r['gb'], r['tag'], [], trace=first)
                    open(os.path.join(tmp, r['tag'] + '.trace'), 'w').write(out)
                if r['status'] == 'failed' and u.replay and '--replay' in a:
                    print(replay_native(u, r.get('case'), r, tmp, u.props[0]))
            if '--keep' not in a: shutil.rmtree(tmp, ignore_errors=True)
        return rc
    return 2

if __name__ == '__main__':
    sys.exit(main())
