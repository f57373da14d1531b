#!/usr/bin/env python3
"""Decide one property: check.py <property-id> [quick|thorough] [--only REGEX] [-v]

Reads the obligations declared in harness/*.c, compiles every harness together with
the *current* source files of /repo using goto-cc, lets CBMC decide each obligation,
replays counterexamples natively, writes evidence/<id>.json.
"""
import sys, os, re, json, shlex, subprocess, tempfile, time, shutil, hashlib, signal, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
HARN = os.path.join(HERE, 'harness')
T0 = time.time()
DEADLINE = T0 + float(os.environ.get('VF_DEADLINE', '840'))
JOBS = int(os.environ.get('VF_JOBS', '8'))
VERBOSE = False

CBMC_FLAGS = ['--no-standard-checks', '--unwinding-assertions', '--pointer-check', '--bounds-check',
              '--div-by-zero-check', '--undefined-shift-check', '--no-malloc-may-fail',
              '--drop-unused-functions', '--slice-formula']
CC_DEFS = ['-DIOT_BUILD_COMPONENTS', '-DIOT_BUILD_DYNAMIC_LOAD', '-D_GNU_SOURCE', '-std=gnu11']

class Obl:
    def __init__(self, name, attrs, fn, file):
        self.name, self.fn, self.file = name, fn, file
        self.a = attrs
        self.props = attrs.get('prop', name.split('.')[0]).split(',')
        self.cls = attrs.get('class', 'bounded')
        self.unwind = int(attrs.get('unwind', '1'))
        self.timeout = float(attrs.get('timeout', '150'))
        self.tier = attrs.get('tier', 'quick')
        self.defs = shlex.split(attrs.get('defs', ''))
        self.flags = shlex.split(attrs.get('flags', ''))
        self.inject = attrs.get('inject', '')
        self.dfcc = attrs.get('dfcc', '')
        self.known = attrs.get('known', '')
        self.bound = attrs.get('bound', '')
        self.fns = [f for f in attrs.get('fns', '').split(',') if f]
        self.light = attrs.get('light', '') == '1'   # functional assertions only; memory safety of the same calls is decided by a sibling obligation
        self.part, self.parts = 0, 1
        self.ctor = attrs.get('ctor', '') == '1'
        self.solver = attrs.get('solver', '')
        if self.solver: self.flags.append('--' + self.solver)
        self.cost = float(attrs.get('cost', '1'))

def parse_obls():
    obls = []
    for f in sorted(os.listdir(HARN)):
        if not f.endswith('.c'): continue
        txt = open(os.path.join(HARN, f)).read()
        pend = []
        for m in re.finditer(r'/\*@\s*OBL\s+(\S+)(.*?)\*/|^void\s+(\w+)\s*\(void\)\s*\{?\s*$', txt, re.S | re.M):
            if m.group(1):
                attrs = {}
                for tok in shlex.split(m.group(2).replace('\n', ' ')):
                    k, _, v = tok.partition('=')
                    attrs[k] = v
                pend.append((m.group(1), attrs))
            elif pend:
                for name, attrs in pend:
                    k = int(attrs.get('split', '1'))
                    for i in range(k):
                        o = Obl(name + ('.p%d' % i if k > 1 else ''), attrs, m.group(3), f)
                        if k > 1: o.part, o.parts = i, k
                        obls.append(o)
                pend = []
        assert not pend, 'dangling OBL in ' + f
    names = [o.name for o in obls]
    dup = {n for n in names if names.count(n) > 1}
    assert not dup, 'duplicate obligations: %s' % dup
    return obls

def parse_loops():
    """LOOP specifications: name -> list of (src, fn, ordinal, text)"""
    loops = {}
    for f in sorted(os.listdir(HARN)):
        if not f.endswith('.c'): continue
        txt = open(os.path.join(HARN, f)).read()
        for m in re.finditer(r'/\*@\s*LOOP\s+(\S+)\s+src=(\S+)\s+fn=(\S+)\s+loop=(\d+)\s*\n(.*?)@?\*/', txt, re.S):
            loops.setdefault(m.group(1), []).append((m.group(2), m.group(3), int(m.group(4)), m.group(5)))
    return loops

# ---------------------------------------------------------------- loop contract injection
def mask(txt):
    """same length text with comments, strings and preprocessor lines blanked"""
    out = list(txt)
    for m in re.finditer(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', txt, re.S):
        for i in range(m.start(), m.end()):
            if out[i] != '\n': out[i] = ' '
    return ''.join(out)

def match_close(s, i, o, c):
    d = 0
    while i < len(s):
        if s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i
        i += 1
    raise ValueError('unbalanced')

def find_body(m, fn):
    for mm in re.finditer(r'\b' + re.escape(fn) + r'\s*\(', m):
        e = match_close(m, mm.end() - 1, '(', ')')
        k = re.match(r'\s*\{', m[e + 1:])
        if k:
            b = e + k.end()
            return b, match_close(m, b, '{', '}')
    raise ValueError('function %s not found' % fn)

def cut_point(txt, m, fb, kw, op, close, kind, nm, text):
    """a loop contract as a cut: the invariant holds on entry; from any state in which it holds, one
    iteration keeps it and decreases the measure; the code after the loop runs from any such state"""
    part = {}
    for sec in re.split(r'^@(?=\w)', text, flags=re.M)[1:]:
        key, _, val = sec.partition(' ') if ' ' in sec.split('\n')[0] else sec.partition('\n')
        part[key.strip()] = val.strip()
    hdr, hm = txt[op + 1:close], m[op + 1:close]
    cond, inc = hdr, ''
    if kind == 'for':
        semi = []; d = 0
        for i, c in enumerate(hm):
            d += (c in '([{') - (c in ')]}')
            if c == ';' and d == 0: semi.append(i)
        if len(semi) != 2: raise ValueError('unusual for loop')
        cond, inc = hdr[semi[0] + 1:semi[1]].strip() or '1', hdr[semi[1] + 1:].strip()
    prev = m[:kw].rstrip()[-1:]
    bb = re.match(r'\s*\{', m[close + 1:])
    if prev not in (';', '{', '}') or not bb: raise ValueError('%s: loop not in a form that can be cut' % nm)
    inv, dec = ' '.join(part['inv'].split()), part.get('dec', '')
    fr = [x.strip() for x in part.get('frame', '').split(',') if x.strip()]   # unchanged by the loop
    inv = ' && '.join(['(' + inv + ')'] + ['vf_f%d_%s == (uint64_t) (%s)' % (i, nm, x) for i, x in enumerate(fr)])
    snap = ' '.join('vf_f%d_%s = (uint64_t) (%s);' % (i, nm, x) for i, x in enumerate(fr))
    end = match_close(m, close + bb.end(), '{', '}')
    brk = part.get('exit', 'break')
    a = '{ if (!vf_c_%s) { %s __CPROVER_assert ((%s), "the loop invariant holds on entry"); vf_c_%s = 1; %s __CPROVER_assume (%s); ' % (nm, snap, inv, nm, part.get('havoc', ''), inv)
    a += '} else { __CPROVER_assert ((%s), "the loop invariant is kept"); %s __CPROVER_assume (0); } }\n' % (inv, dec and '__CPROVER_assert ((uint64_t) (%s) < vf_m_%s, "the loop makes progress");' % (dec, nm))
    a += 'if (!(%s)) %s;\n' % (cond, brk)
    if dec: a += 'vf_m_%s = (uint64_t) (%s);\n' % (nm, dec)
    a += part.get('body', '') + '\n'
    z = '\n{ %s; __CPROVER_assert ((%s), "the loop invariant is kept"); %s __CPROVER_assume (0); }\n' % (inc, inv, dec and '__CPROVER_assert ((uint64_t) (%s) < vf_m_%s, "the loop makes progress");' % (dec, nm))
    r = [(fb + 1, ' int vf_c_%s = 0; uint64_t vf_m_%s = 0; (void) vf_m_%s;%s' % (nm, nm, nm, ''.join(' uint64_t vf_f%d_%s = 0;' % (i, nm) for i in range(len(fr))))), (kw, 'vf_c_%s = 0; ' % nm), (close + 1 + bb.end(), '\n/* ghost */ ' + a), (end, z)]
    if part.get('after'): r.append((end + 1, '\n/* ghost */ ' + part['after'] + '\n'))
    return r

def inject(specs, gendir, over):
    bysrc = {}
    for src, fn, k, text in specs: bysrc.setdefault(src, []).append((fn, k, text))
    for src, lst in bysrc.items():
        ov = os.path.join(over, src)
        txt = open(ov if os.path.exists(ov) else os.path.join(REPO, src)).read()
        m = mask(txt)
        ins = []
        for fn, k, text in lst:
            b, e = find_body(m, fn)
            n = 0
            for lm in re.finditer(r'\b(while|for)\s*\(', m[b:e]):
                close = match_close(m, b + lm.end() - 1, '(', ')')
                if lm.group(1) == 'while' and re.match(r'\s*;', m[close + 1:]) and re.search(r'\}\s*$', m[b:b + lm.start()]):
                    continue   # tail of a do-while
                n += 1
                if n == k and '@inv' in text:
                    ins += cut_point(txt, m, b, b + lm.start(), b + lm.end() - 1, close, lm.group(1), '%s_%d' % (fn, k), text)
                    break
                if n == k:
                    head, _, after = text.partition('@after')
                    head, _, ghost = head.partition('@body')
                    ins.append((close + 1, '\n' + head.strip() + '\n'))
                    if ghost.strip() or after.strip():
                        bb = re.match(r'\s*\{', m[close + 1:])
                        if not bb: raise ValueError('%s: loop %d has no block body' % (fn, k))
                        if ghost.strip(): ins.append((close + 1 + bb.end(), '\n/* ghost */ ' + ghost.strip() + '\n'))
                        if after.strip(): ins.append((match_close(m, close + bb.end(), '{', '}') + 1, '\n/* ghost */ ' + after.strip() + '\n'))
                    break
            else:
                raise ValueError('%s: loop %d not found' % (fn, k))
        for pos, t in sorted(ins, reverse=True): txt = txt[:pos] + t + txt[pos:]
        p = os.path.join(gendir, src)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(txt)

# ---------------------------------------------------------------- tools
def run(cmd, timeout, cwd=None, env=None, mem_gb=9):
    def pre():
        os.setsid()
        import resource
        if mem_gb: resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), time.time() - t
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.communicate()
        return None, '', 'timeout', time.time() - t

class Builder:
    def __init__(self, work, loops):
        self.work, self.loops = work, loops
        self.cache, self.lock, self.locks = {}, threading.Lock(), {}
        d = os.path.join(work, 'defs', 'iot')
        os.makedirs(d)
        ver = '0.0.0'
        try: ver = open(os.path.join(REPO, 'VERSION')).read().strip()
        except OSError: pass
        open(os.path.join(d, 'defs.h'), 'w').write('#ifndef _IOT_DEFS_H_\n#define _IOT_DEFS_H_\n#define IOT_VERSION "%s"\n#define IOT_HAS_XML\n#define IOT_HAS_YAML\n#define IOT_HAS_CBOR\n#endif\n' % ver)

        # CBMC loses pointers stored through a union of structs: the iterator variants of
        # iot_data_iter_t are laid out side by side (each is only used under its own tag)
        self.over = os.path.join(work, 'over')
        os.makedirs(os.path.join(self.over, 'iot'))
        h = open(os.path.join(REPO, 'include/iot/data.h')).read()
        h = re.sub(r'union(\s*\{\s*iot_data_vector_iter_t)', r'struct\1', h)
        # and it only follows pointers stored in raw storage when that storage has the type used
        # for the access: iot_data_static_t becomes an array of one iot_data_value_base_t, whose
        # definition (and those it needs) is moved, unchanged, from data-impl.h and data.c to data.h
        try: h = self.move_types(h)
        except (OSError, AttributeError): pass
        open(os.path.join(self.over, 'iot', 'data.h'), 'w').write(h)

    def move_types(self, h):
        impl = open(os.path.join(REPO, 'src/c/data-impl.h')).read()
        src = open(os.path.join(REPO, 'src/c/data.c')).read()
        moved = []
        def cut(text, pat):
            m = re.search(pat, text, re.S)
            moved.append(m.group(0))
            return text[:m.start()] + '\n' * m.group(0).count('\n') + text[m.end():]
        for pat in (r'typedef struct iot_block_t\s*\{.*?\} iot_block_t;', r'typedef union iot_data_base_t\s*\{.*?\} iot_data_base_t;', r'struct iot_data_t\s*\{.*?\};'):
            impl = cut(impl, pat)
        for pat in (r'typedef union iot_data_union_t\s*\{.*?\} iot_data_union_t;', r'typedef struct iot_data_value_base_t\s*\{.*?\} iot_data_value_base_t;'):
            src = cut(src, pat)
        m = re.search(r'typedef void \* iot_data_static_t\s*\[.*?\];', h)
        h = h[:m.start()] + '\n'.join(moved) + '\ntypedef iot_data_value_base_t iot_data_static_t [1];' + h[m.end():]
        os.makedirs(os.path.join(self.over, 'src', 'c'), exist_ok=True)
        for d in ('', 'src/c/'):
            open(os.path.join(self.over, d + 'data-impl.h'), 'w').write('#line 1 "%s/src/c/data-impl.h"\n' % REPO + impl)
        open(os.path.join(self.over, 'src', 'c', 'data.c'), 'w').write('#line 1 "%s/src/c/data.c"\n' % REPO + src)
        for f in ('src/c/data-cbor.c', 'src/c/data-json.c'):   # next to the data-impl.h they include
            open(os.path.join(self.over, f), 'w').write('#line 1 "%s/%s"\n' % (REPO, f) + open(os.path.join(REPO, f)).read())
        return h

    def incs(self, gen, native=False):
        r = ['-I', HARN]
        if gen: r += ['-I', gen]
        if not native: r += ['-I', self.over]
        return r + ['-I', REPO, '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src/c'), '-I', os.path.join(self.work, 'defs')]

    def gb(self, o):
        key = (o.file, tuple(o.defs), o.inject, o.dfcc, o.ctor, o.fn if o.dfcc or o.parts > 1 else '', o.parts)
        with self.lock:
            lk = self.locks.setdefault(key, threading.Lock())
        with lk:
            if key in self.cache: return self.cache[key]
            h = hashlib.md5(repr(key).encode()).hexdigest()[:10]
            out = os.path.join(self.work, h + '.gb')
            gen = None
            try:
                if o.inject:
                    gen = os.path.join(self.work, 'gen_' + h)
                    specs = []
                    for nm in o.inject.split(','): specs += self.loops[nm]
                    inject(specs, gen, self.over)
                cmd = ['goto-cc', '-o', out] + self.incs(gen) + CC_DEFS + ([] if o.ctor else ['-Dconstructor=unused']) + o.defs
                if o.dfcc: cmd += ['--function', o.fn]
                src = os.path.join(HARN, o.file)
                if o.parts > 1:   # one binary, one entry per part
                    src = os.path.join(self.work, 'wrap_' + h + '.c')
                    open(src, 'w').write('#define PARTS %du\n#define PART vf_part\nstatic unsigned vf_part;\n#include "%s"\n' % (o.parts, o.file) +
                                         ''.join('void %s_part%d (void) { vf_part = %du; %s (); }\n' % (o.fn, i, i, o.fn) for i in range(o.parts)))
                rc, so, se, _ = run(cmd + [src], 120)
                if rc != 0: raise ValueError('goto-cc: ' + (so + se)[-1500:])
                if o.dfcc:
                    out2 = out + '2'
                    rc, so, se, _ = run(['goto-instrument', '--dfcc', o.fn] + shlex.split(o.dfcc if o.dfcc != '1' else '--apply-loop-contracts') + [out, out2], 120)
                    if rc != 0: raise ValueError('goto-instrument: ' + (so + se)[-1500:])
                    out = out2
                res = (out, None)
            except (ValueError, OSError) as ex:
                res = (None, str(ex))
            self.cache[key] = res
            return res

def parse_json(out):
    try: return json.loads(out)
    except ValueError:
        # tolerate truncation
        return None

def cbmc(o, gb, unwind, timeout, extra=(), drop=()):
    flags = [f for f in CBMC_FLAGS if f not in drop and not (o.light and f == '--pointer-check')] + o.flags
    if '--object-bits' not in flags: flags += ['--object-bits', '12']
    cmd = ['cbmc', gb] + ([] if o.dfcc else ['--function', o.fn if o.parts == 1 else '%s_part%d' % (o.fn, o.part)]) + ['--unwind', str(unwind)] + flags + ['--json-ui'] + list(extra)
    env = dict(os.environ, PATH=os.path.join(HERE, 'smtbin') + ':' + os.environ['PATH']) if o.solver else None
    rc, so, se, t = run(cmd, timeout, env=env)
    if rc is None: return None, 'timeout after %.0f s' % t, t, cmd
    js = parse_json(so)
    if js is None: return None, 'no result (rc %s): %s' % (rc, (so[-300:] + se[-300:])), t, cmd
    res = None
    msgs = []
    for el in js:
        if 'result' in el: res = el['result']
        if el.get('messageType') == 'ERROR': msgs.append(el.get('messageText', ''))
    if res is None: return None, 'no result (rc %s): %s' % (rc, ' '.join(msgs)[-600:]), t, cmd
    return res, None, t, cmd

def is_unwind(p):
    return 'unwinding assertion' in p['description'] or p['property'].endswith('.recursion') or '.unwind.' in p['property']

def decide(o, b, log):
    r = {'name': o.name, 'class': o.cls, 'fns': o.fns, 'bound': o.bound, 'status': 'undecided', 'vc': 0, 'ok': 0, 't': 0.0, 'reason': '', 'fails': []}
    gb, err = b.gb(o)
    if gb is None:
        r['reason'] = 'cannot build: ' + err
        return r
    unwind = o.unwind
    for attempt in range(2):
        left = min(o.timeout, DEADLINE - 60 - time.time())
        if left < 5:
            r['reason'] = 'check deadline'
            return r
        res, err, t, cmd = cbmc(o, gb, unwind, left)
        r['t'] += t
        if res is None:
            r['reason'] = err
            return r
        reach = [p for p in res if 'VFREACH' in p['description']]
        vcs = [p for p in res if 'VFREACH' not in p['description']]
        fails = [p for p in vcs if p['status'] == 'FAILURE']
        r['vc'] = len(vcs)
        r['ok'] = sum(p['status'] == 'SUCCESS' for p in vcs)
        r['cmd'] = ' '.join(shlex.quote(c) for c in cmd)
        hard = [p for p in fails if not is_unwind(p)]
        soft = [p for p in fails if is_unwind(p)]
        if hard:
            # an assertion that fails on an unwound path is a genuine path; report it
            r['status'] = 'fail'
            r['fails'] = hard
            r['unwind'] = unwind
            return r
        if soft:
            r['reason'] = 'unwinding bound %d not sufficient: %s' % (unwind, ', '.join(p['property'] for p in soft[:4]))
            r['soft'] = soft
            r['unwind'] = unwind
            unwind = unwind * 2 + 2
            continue
        if r['ok'] != r['vc']:
            r['reason'] = 'solver left conditions open'
            return r
        if not vcs:
            r['reason'] = 'no verification condition generated'
            return r
        if not reach or any(p['status'] != 'FAILURE' for p in reach):
            r['reason'] = 'vacuous: ' + ', '.join(p['description'] for p in reach if p['status'] != 'FAILURE')
            return r
        r['reach'] = len(reach)
        r['status'] = 'ok'
        r['reason'] = ''
        r.pop('soft', None)
        return r
    return r

# ---------------------------------------------------------------- counterexamples
def witness(o, gb, prop, unwind, timeout):
    res, err, t, cmd = cbmc(o, gb, unwind, timeout, extra=['--property', prop, '--trace'], drop=('--slice-formula',))
    if res is None: return None, err
    for p in res:
        if p['property'] == prop and p['status'] == 'FAILURE':
            vals = []
            for s in p.get('trace', []):
                if s.get('stepType') == 'assignment' and s.get('lhs') == 'vf_input' and not s.get('hidden'):
                    v = s['value']
                    if 'binary' in v: vals.append(int(v['binary'], 2))
                    else:
                        mm = re.match(r'\d+', str(v.get('data', '0')))
                        vals.append(int(mm.group(0)) if mm else 0)
            return vals, None
    return None, 'property did not fail again'

def native_build(o, b, pattern):
    h = hashlib.md5(repr((o.file, o.defs, o.inject, o.fn, pattern, o.part, o.parts)).encode()).hexdigest()[:10]
    exe = os.path.join(b.work, 'nat_' + h)
    if os.path.exists(exe): return exe, None
    cmd = ['gcc', '-g', '-O0', '-w', '-fsanitize=address,undefined', '-fno-sanitize=alignment,shift-base,nonnull-attribute', '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=' + pattern,
           '-DVF_NATIVE', '-DVF_ENTRY=' + o.fn] + b.incs(None, True) + CC_DEFS + ['-Dconstructor=unused', '-DPART=%d' % o.part, '-DPARTS=%d' % o.parts] + o.defs + \
          [os.path.join(HARN, o.file), os.path.join(HARN, 'vf_native.c'), '-o', exe, '-ffunction-sections', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-lm', '-lpthread', '-ldl']
    rc, so, se, _ = run(cmd, 120, mem_gb=0)
    if rc != 0: return None, (so + se)[-1500:]
    if not re.search(r' T %s$' % o.fn, run(['nm', exe], 60, mem_gb=0)[1], re.M):
        os.unlink(exe)
        return None, 'this obligation exists only for the verifier'
    return exe, None

def replay(o, b, vals):
    d = tempfile.mkdtemp(prefix='rep', dir=b.work)
    wf = os.path.join(d, 'witness.txt')
    open(wf, 'w').write('\n'.join(str(v) for v in vals) + '\n')
    last = ''
    for pattern in ('zero', 'pattern'):
        exe, err = native_build(o, b, pattern)
        if exe is None: return False, 'native build failed: ' + err
        for fill in ('0', '255', '190') if pattern == 'zero' else ('190',):
            env = dict(os.environ)
            env['ASAN_OPTIONS'] = 'max_malloc_fill_size=1048576:malloc_fill_byte=' + fill
            rc, so, se, t = run([exe, wf], 30, cwd=d, env=env, mem_gb=0)
            last = 'exit %s (malloc fill %s)\n%s%s' % (rc, fill, so[-2000:], se[-3000:])
            if rc in (66, 67, -6, 134, -11, 139, -14, 142, -8, -4, -7) or rc is None:
                if rc in (-14, 142) or rc is None: last = 'DOES NOT TERMINATE: ' + last
                return True, last
    return False, last

def investigate(o, r, b, prop):
    """returns dict for the replay file"""
    gb, _ = b.gb(o)
    cands = r['fails'] or r.get('soft', [])
    cands = sorted(cands, key=lambda p: 0 if p['description'].startswith('VF') or 'assert' in p['property'] else 1)
    info = {'property': prop, 'obligation': o.name, 'harness': o.file + ':' + o.fn, 'class': o.cls, 'bound': o.bound,
            'failed': [{'condition': p['property'], 'description': p['description'],
                        'at': '%s:%s %s' % tuple(p.get('sourceLocation', {}).get(k, '?') for k in ('file', 'line', 'function'))} for p in cands],
            'verifier_cmd': r.get('cmd', ''), 'reproduced': False}
    if o.dfcc:
        info['note'] = 'modular obligation: the verifier gives no concrete input'
        return info
    tried = []
    for p in cands[:3]:
        left = min(240, DEADLINE - 20 - time.time())
        if left < 5: break
        vals, err = witness(o, gb, p['property'], r.get('unwind', o.unwind), left)
        if vals is None:
            tried.append({'condition': p['property'], 'witness': None, 'reason': err})
            continue
        ok, out = replay(o, b, vals)
        tried.append({'condition': p['property'], 'witness': vals, 'native_failed': ok, 'native_output': out})
        if ok:
            info['reproduced'] = True
            info['witness'] = vals
            break
    info['tried'] = tried
    return info

def search(o, b):
    """a failing input for an obligation that the verifier refused or left open: zero and pseudo-random inputs on the real code"""
    import random
    exe, err = native_build(o, b, 'zero')
    if exe is None: return None
    for seed in range(24):
        r = random.Random(seed)
        vals = [0 if seed == 0 else r.choice([0, 1, 2, r.getrandbits(3), r.getrandbits(64)]) for _ in range(3000)]
        wf = os.path.join(b.work, 'search_%s_%d' % (o.name, seed))
        open(wf, 'w').write('\n'.join(map(str, vals)) + '\n')
        if DEADLINE - 15 < time.time(): return None
        rc, so, se, t = run([exe, wf], 30, cwd=b.work, mem_gb=0)
        if rc is not None and rc not in (0, 77): return vals, 'exit %s\n%s%s' % (rc, so[-2000:], se[-3000:])
    return None

# ---------------------------------------------------------------- known findings
def known_findings():
    kf = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known:\s+property=(\S+)\s+obligation=(\S+)\s+(.*)', l.strip())
            if m: kf[(m.group(1), m.group(2))] = m.group(3)
    return kf

def main():
    global VERBOSE
    args = sys.argv[1:]
    only = None
    if '--only' in args:
        i = args.index('--only'); only = re.compile(args[i + 1]); del args[i:i + 2]
    if '-v' in args: args.remove('-v'); VERBOSE = True
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    obls = [o for o in parse_obls() if prop in o.props and (tier == 'thorough' or o.tier == 'quick')]
    if only: obls = [o for o in obls if only.search(o.name)]
    if not obls:
        print('no obligations for', prop); return 2
    work = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    try:
        return check(prop, tier, seed, obls, work, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def check(prop, tier, seed, obls, work, only):
    b = Builder(work, parse_loops())
    obls.sort(key=lambda o: -o.cost)
    log = []
    kf = known_findings()
    results = {}
    def one(o):
        r = decide(o, b, log)
        if VERBOSE: print('%-28s %-9s %7.1fs vc=%d %s %s' % (o.name, r['status'], r['t'], r['vc'], r['reason'][:300], '; '.join(p['property'] + ': ' + p['description'] for p in r['fails'][:4])), flush=True)
        return o, r
    with ThreadPoolExecutor(JOBS) as ex:
        for o, r in ex.map(one, obls): results[o.name] = (o, r)

    violations, known_hit, undecided = [], [], []
    todo = []
    for name, (o, r) in results.items():
        if r['status'] == 'fail':
            if o.known and (prop, name) in kf:
                known_hit.append((name, kf[(prop, name)]))
                r['status'] = 'known'
            else: todo.append((o, r))
        elif r['status'] == 'undecided':
            if r.get('soft') and not r['fails'] and not o.dfcc: todo.append((o, r))
            else: undecided.append((o, r))
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    def inv(x):
        o, r = x
        return o, r, investigate(o, r, b, prop)
    with ThreadPoolExecutor(JOBS) as ex:
        for o, r, info in ex.map(inv, todo):
            if r['status'] == 'undecided' and not info['reproduced']:
                undecided.append((o, r)); continue     # only the unwinding bound failed
            p = os.path.join(HERE, 'replays', '%s_%s.json' % (prop, re.sub(r'\W', '_', o.name)))
            info['how_to_replay'] = 'python3 %s/replay.py %s' % (HERE, p)
            info['defs'] = o.defs + ['-DPART=%d' % o.part, '-DPARTS=%d' % o.parts]
            json.dump(info, open(p, 'w'), indent=1)
            r['status'] = 'fail'
            violations.append((o, r, info, p))
    # what the verifier refused or left open without a failing input: look for one on the real code
    if not any(v[2]['reproduced'] for v in violations):
        cand = [v[0] for v in violations] + [o for o, r in undecided if not r['reason'].startswith('cannot build')]
        with ThreadPoolExecutor(JOBS) as ex:
            found = [(o, x) for o, x in ex.map(lambda o: (o, None if o.dfcc or o.known else search(o, b)), cand) if x]
        for o, (vals, out) in found:
            r = results[o.name][1]
            info = next((v[2] for v in violations if v[0] is o), None)
            p = os.path.join(HERE, 'replays', '%s_%s.json' % (prop, re.sub(r'\W', '_', o.name)))
            if info is None:
                info = {'property': prop, 'obligation': o.name, 'harness': o.file + ':' + o.fn, 'class': o.cls, 'bound': o.bound,
                        'failed': [{'condition': o.name, 'description': 'left open by the verifier (%s); fails on the real code' % r['reason'][:200], 'at': ''}],
                        'how_to_replay': 'python3 %s/replay.py %s' % (HERE, p), 'defs': o.defs + ['-DPART=%d' % o.part, '-DPARTS=%d' % o.parts]}
                undecided = [u for u in undecided if u[0] is not o]
                r['status'] = 'fail'
                violations.append((o, r, info, p))
            info.update(reproduced=True, witness=vals, native_output=out)
            json.dump(info, open(p, 'w'), indent=1)
    # a concrete, reproduced counterexample first
    violations.sort(key=lambda v: not v[2]['reproduced'])

    for name, what in known_hit: print('KNOWN-FINDING: property=%s %s' % (prop, what))
    for o, r in undecided: print('UNDECIDED: property=%s obligation=%s %s' % (prop, o.name, r['reason'].replace('\n', ' ')[:400]))
    for o, r, info, p in violations[:1] + [v for v in violations[1:6] if v[2]['reproduced'] == violations[0][2]['reproduced']]:
        print('FAILED obligation=%s: %s' % (o.name, '; '.join(f['condition'] + ': ' + f['description'] for f in info['failed'][:3])))
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if info['reproduced'] else ' no-failing-input-found'))

    ok = [(o, r) for o, r in results.values() if r['status'] == 'ok']
    unb = [(o, r) for o, r in results.values() if o.cls in ('proved', 'contract') and not o.known]
    bnd = [(o, r) for o, r in results.values() if o.cls == 'bounded' and not o.known]
    level = LEVELS.get(prop, 'other')
    cov = {
        'obligations': sum(r['vc'] for o, r in unb),
        'discharged': sum(r['ok'] for o, r in unb if r['status'] == 'ok'),
        'bounded_conditions': sum(r['vc'] for o, r in bnd),
        'bounded_conditions_held': sum(r['ok'] for o, r in bnd if r['status'] == 'ok'),
        'checker_cmd': 'python3 check.py %s %s  (goto-cc + cbmc 6.11, SAT back end MiniSat; cvc5 where flagged)' % (prop, tier),
        'trusted_base': TRUST,
        'explanation': 'Obligations are harness functions over the real source of /repo; obligations/discharged count verification conditions of the unbounded classes (proved, contract); bounded ones are counted separately with their bound.',
        'functions_under_contract': sorted({f for o, r in results.values() if r['status'] == 'ok' for f in o.fns}),
        'functions_bounded_only': sorted({f for o, r in bnd if r['status'] == 'ok' for f in o.fns} - {f for o, r in unb if r['status'] == 'ok' for f in o.fns}),
        'obligation_list': [{'name': o.name, 'class': o.cls, 'bound': o.bound, 'status': r['status'], 'conditions': r['vc'], 'held': r['ok'],
                             'solver_s': round(r['t'], 2), 'reachability_checks': r.get('reach', 0), 'reason': r['reason'][:300]} for o, r in results.values()],
        'solver_s_total': round(sum(r['t'] for o, r in results.values()), 1),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ASSUME + EXTRA_ASSUME.get(prop, []), 'wall_s': round(time.time() - T0, 1), 'violations': len(violations)}
    if not only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations held (%d unbounded, %d bounded), %d undecided, %d violated, %d known; %.0f s' %
          (prop, len(ok), sum(1 for o, r in ok if o.cls != 'bounded'), sum(1 for o, r in ok if o.cls == 'bounded'), len(undecided), len(violations), len(known_hit), time.time() - T0))
    if violations: return 1
    if not ok: return 2
    return 0

try:
    from registry import LEVELS, TRUST, ASSUME, EXTRA_ASSUME
except ImportError:
    LEVELS, TRUST, ASSUME, EXTRA_ASSUME = {}, [], [], {}

if __name__ == '__main__':
    sys.exit(main())
