"""The C implementation: contracts discharged by CBMC.

The real C files are compiled with goto-cc together with the contracts of the
Python/C API (cside/capi.c) and the contracts of the functions themselves
(cside/proxy_h.c, cside/checker_h.c).  Every function of the two files is
reached the way the interpreter reaches it, through the slots of the types
and the tables of methods that the modules register; nothing is said about
the names or the number of static functions.  The functions have no loops
but for the one in selectChecker, so symbolic execution is complete; the
unwinding assertions are obligations like the others.  The loop of
selectChecker is unwound for chains of at most 3 factories, and in addition
proved for chains of any length by induction: see `cut`.
"""
import json
import os
import re
import resource
import signal
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CSIDE = os.path.join(VERIF, 'cside')
SOURCES = {'proxy': '_proxy.c', 'checker': '_zope_security_checker.c'}
ASK = ('refused', 'granted')

UNARY = ['negative', 'positive', 'absolute', 'invert', 'int', 'float',
         'index']
BINARY = ['add', 'subtract', 'multiply', 'remainder', 'divmod', 'lshift',
          'rshift', 'and', 'xor', 'or', 'floor_divide', 'true_divide']
INPLACE = ['add', 'subtract', 'multiply', 'remainder', 'lshift', 'rshift',
           'and', 'xor', 'or', 'floor_divide', 'true_divide', 'power']

TABLE = []


def add(file, names, pids, reach=(), shapes=((0, 5), (2, 7)), bounded=None):
    for n in names:
        TABLE.append(dict(file=file, name=n, pids=pids.split(), reach=reach,
                          shapes=shapes, bounded=bounded))


add('proxy', ['nb_' + n for n in UNARY + BINARY] +
    ['nb_%s_right' % n for n in BINARY] + ['nb_inplace_' + n for n in INPLACE]
    + ['nb_power', 'nb_power_right', 'nb_power_modulus', 'tp_iter',
       'tp_iternext', 'tp_call', 'mp_subscript', 'tp_getattro', 'sq_item'],
    'C01 C02 C23', ASK)
add('proxy', ['nb_%s_neither' % n for n in BINARY] + ['nb_power_neither'],
    'C01 C23', ('neither',), shapes=((0, 5),))
add('proxy', ['tp_setattro', 'tp_delattro', 'mp_ass_subscript',
              'mp_del_subscript', 'sq_ass_item', 'sq_del_item'],
    'C03 C23', ASK)
add('proxy', ['mp_length', 'sq_length', 'sq_contains'], 'C01 C23', ASK)
add('proxy', ['nb_bool', 'tp_hash', 'length_hint'], 'C04 C23')
add('proxy', ['tp_str', 'tp_repr'], 'C04 C23', ('granted', 'anonymous'))
add('proxy', ['tp_richcompare'], 'C04 C02 C23', ('answer', 'protected'))
add('proxy', ['tp_new', 'tp_init', 'getChecker', 'getObject'], 'C22 C23',
    shapes=((0, 5),))
add('proxy', ['tp_dealloc', 'tp_traverse'], 'C23', shapes=((0, 5),))
add('checker', ['check_slot'], 'C05 C23',
    ('public', 'allowed', 'unauthorized', 'forbidden', 'default', 'no iter'),
    shapes=((0, 7), (1,), (3,)))
add('checker', ['check', 'check_getattr'], 'C05 C23',
    ('public', 'allowed', 'unauthorized', 'forbidden', 'default', 'no iter',
     'arguments'), shapes=((0, 7), (1,), (3,)))
add('checker', ['check_setattr'], 'C06 C23',
    ('public', 'allowed', 'unauthorized', 'forbidden', 'arguments'),
    shapes=((0, 1), (3,), (7,)))
add('checker', ['check_del'], 'C23', shapes=((0, 3),))
add('checker', ['permission_id'], 'C05 C23', shapes=((0, 1, 3, 7),))
add('checker', ['setattr_permission_id'], 'C06 C23', shapes=((0, 1, 3, 7),))
add('checker', ['get_permissions', 'set_permissions'], 'C05 C22 C23',
    shapes=((0, 1, 3, 7),))
add('checker', ['tp_init'], 'C05 C06 C23', ('made', 'refused'),
    shapes=((0, 1), (3, 7)))
add('checker', ['tp_dealloc', 'tp_clear', 'tp_traverse'], 'C23',
    shapes=((0, 1, 3, 7),))
CHAIN = 'chains of at most 3 checker factories'
add('checker', ['selectChecker'], 'C08 C23', ('nothing', 'selected'),
    shapes=((0,), (2,)), bounded=CHAIN)
add('checker', ['proxy', 'proxy_slot'], 'C07 C08 C23',
    ('proxy', 'none', 'bare', 'own', 'wrapped'), shapes=((0,), (2,)),
    bounded=CHAIN)
# the same for a chain of any length
add('checker_cut', ['selectChecker'], 'C08 C23',
    ('nothing', 'selected', 'loop', 'step'), shapes=((0,), (2,)))
add('checker_cut', ['proxy', 'proxy_slot'], 'C07 C08 C23',
    ('bare', 'wrapped', 'loop', 'step'), shapes=((0,), (2,)))
SOURCES['checker_cut'] = SOURCES['checker']

FLAGS = ['--no-malloc-may-fail', '--pointer-check', '--bounds-check',
         '--unwind', '45', '--unwinding-assertions',
         '--drop-unused-functions', '--slice-formula', '--verbosity', '6']


def jobs(pid):
    return [(t, i) for t in TABLE if pid in t['pids']
            for i in range(len(t['shapes']))]


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))


def build(repo, out, files):
    """Compiles the current sources and the contracts: {file: binary}."""
    res, err = {}, None
    for f in files:
        f, cutting = (f[:-4], True) if f.endswith('_cut') else (f, False)
        main = os.path.join(out, f + '_cut' * cutting + '_main.c')
        with open(main, 'w') as m:
            m.write('#include "capi.h"\n')
            for t in TABLE:
                if t['file'] != f:
                    continue
                m.write('void h_%s(void);\n' % t['name'])
                for i, s in enumerate(t['shapes']):
                    if cutting:
                        for w in range(1 << WEAK):
                            m.write('void m_%s_%d_w%d(void) { g_weak = %d; '
                                    'g_cut = 1; g_shape = %d; h_%s(); '
                                    'g_frame_check(); }\n' % (
                                        t['name'], i, w, w, s[-1], t['name']))
                        continue
                    m.write('void m_%s_%d(void) {\n' % (t['name'], i))
                    for n in s[:-1]:
                        m.write('  if (nondet_bool()) { g_shape = %d; h_%s(); '
                                'g_frame_check(); return; }\n' % (
                                    n, t['name']))
                    m.write('  g_shape = %d; h_%s(); g_frame_check();\n}\n'
                            % (s[-1], t['name']))
        gb = os.path.join(out, f + '_cut' * cutting + '.gb')
        src = os.path.join(repo, 'src', 'zope', 'security', SOURCES[f])
        cc = ['goto-cc', '-w', '-DNDEBUG', '-I/usr/include/python3.12',
              '-I' + os.path.join(repo, 'include', 'zope.proxy'),
              '-I' + CSIDE, '-I' + os.path.dirname(src)]
        p = subprocess.run(cc + ['-c', src, '-o', gb + '.o'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            err = p.stdout.decode('utf8', 'replace')[-800:]
            continue
        wrap = os.path.join(out, f + '_cut' * cutting + '_wrap.c')
        table = symbols(gb + '.o')
        text = '#include "%s"\n' % src
        if cutting:
            try:
                text = cut(src, table)
            except Unsupported as e:
                err = str(e)
                continue
        with open(wrap, 'w') as w:
            w.write(text + frame(table, src))
        p = subprocess.run(
            cc + [os.path.join(CSIDE, 'capi.c'),
                  os.path.join(CSIDE, f + '_h.c'), main, wrap, '-o', gb],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            err = p.stdout.decode('utf8', 'replace')[-800:]
        else:
            res[f + '_cut' * cutting] = gb
    return res, err


def symbols(obj):
    p = subprocess.run(['goto-instrument', '--show-symbol-table', '--json-ui',
                        obj], stdout=subprocess.PIPE)
    out = {}
    for e in json.loads(p.stdout):
        out.update(e.get('symbolTable', {}))
    return out


# the tables of types and methods; read by CPython, not by the modules
TABLES = re.compile(r'^(struct )?(PyTypeObject|Py\w+Methods|PyMethodDef|'
                    r'PyGetSetDef|PyMemberDef|PyModuleDef|PyType_Slot|'
                    r'PyType_Spec|_typeobject)\b|^char \[|^char \*\[|^const ')


def frame(table, src):
    """The state of the module, but for that of the objects: it is set by the
    initialisation, and a call leaves it as it is; so that what holds of one
    call holds of a call at any point of any history."""
    saves, checks, decls = [], [], []
    for n, s in table.items():
        t = s['prettyType']
        if not s['isStaticLifetime'] or s['isType'] or \
                s['location'].get('file') != src or \
                s['type']['id'] == 'code' or '$' in n or \
                n.startswith('__func__') or '::__func__' in n or \
                TABLES.match(t) or '#constant' in s['type'].get(
                    'namedSub', {}):
            continue
        if '::' in n or s['type']['id'] not in SCALARS:
            checks.append('  ASSERT(0, "FRAME: %s keeps state");' % n)
            continue
        decls.append('static __typeof__(%s) g_was_%s;' % (n, n))
        saves.append('  g_was_%s = %s;' % (n, n))
        checks.append('  ASSERT(%s == g_was_%s, "FRAME: %s is as '
                      'initialised");' % (n, n, n))
    return '\n'.join(['#include "capi.h"'] + decls + [
        'void g_frame_save(void) {'] + saves + [
        '}', 'void g_frame_check(void) {'] + checks + ['}', ''])


class Unsupported(Exception):
    pass


SCALARS = ('pointer', 'signedbv', 'unsignedbv', 'c_bool', 'bool')
BLANK = re.compile(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|'
                   r"'(?:\\.|[^'\\\n])*'|^[ \t]*\#(?:\\\n|[^\n])*",
                   re.S | re.M)
DECL = re.compile(r'\s*(\w+\s+)*\w+[\s*]+\w+\s*(=|,|\[|$)')


def close(text, i):
    """The position of the bracket that closes the one at i."""
    depth = 0
    for j in range(i, len(text)):
        if text[j] in '([{':
            depth += 1
        elif text[j] in ')]}':
            depth -= 1
            if depth == 0:
                return j
    raise Unsupported('unbalanced brackets')


def cut(src, table):
    """The source with a hook at the head of each loop.

    The hook (g_head_* in checker_h.c) does nothing but in the proofs by
    induction.  There, when the loop is reached first, it checks that the
    state is the one of the loop invariant - the function owns one reference
    to the checker to be resolved, nothing else is owed, no error is pending -
    and replaces this checker, in the variables that hold it, by any object
    whatsoever; when the head is reached again it checks that the state is
    that of the invariant once more, with the result of the one call made in
    between in the place of the checker, and ends the path.  Variables of the
    function are found in the symbol table; nothing is dropped or rewritten.
    """
    with open(src, encoding='utf8', errors='surrogateescape') as f:
        text = f.read()
    flat = BLANK.sub(lambda m: re.sub(r'[^\n]', ' ', m[0]), text)
    funcs = sorted((int(s['location']['line']), n) for n, s in table.items()
                   if s['location'].get('file') == src and
                   s['type']['id'] == 'code' and '::' not in n)
    edits, depth, tails, n = [], 0, set(), 0
    for m in re.finditer(r'[{}]|\b(?:while|for|do)\b', flat):
        if m[0] == '{':
            depth += 1
            continue
        if m[0] == '}':
            depth -= 1
            continue
        if m.start() in tails:
            continue
        line = flat.count('\n', 0, m.start()) + 1
        if depth != 1:
            continue                # is unwound
        name = [f for at, f in funcs if at <= line][-1]
        hook = ['g_head_begin(%d)' % n]
        for v, s in sorted(table.items()):
            q = re.fullmatch(re.escape(name) + r'(?:::1)?::(\w+)', v)
            if q is None or s['isType'] or s['isStaticLifetime'] or \
                    s['location'].get('file') != src or \
                    int(s['location']['line']) > line:
                continue
            kind = s['type']['id']
            if kind not in SCALARS:
                hook = None
                break
            i = len(hook) - 1
            hook.append('g_head_%s(%d, %s%s)' % (
                ('pointer', i, '(PyObject **)&', q[1]) if kind == 'pointer'
                else ('number', i, '(long)', q[1])))
        if hook is None or len(hook) > WEAK + 1:
            continue
        n += 1
        hook = '(%s, g_head_end())' % ', '.join(hook)
        if m[0] == 'do':
            i = flat.find('{', m.end())
            if i < 0 or flat[m.end():i].strip():
                continue
            edits.append((i + 1, ' %s;' % hook))
            t = re.compile(r'\s*\bwhile\b').match(flat, close(flat, i) + 1)
            if t:
                tails.add(t.end() - 5)
            continue
        i = flat.find('(', m.end())
        j = close(flat, i)
        if m[0] == 'while':
            edits.append((i + 1, '%s, (' % hook))
            edits.append((j, ')'))
            continue
        semi = [x for x in range(i, j) if flat[x] == ';']
        if len(semi) != 2 or DECL.match(flat[i + 1:semi[0]]):
            continue
        empty = not flat[semi[0] + 1:semi[1]].strip()
        edits.append((semi[0] + 1, '%s, (' % hook))
        edits.append((semi[1], '1)' if empty else ')'))
    if not edits:
        raise Unsupported('there is no loop to cut')
    for at, new in sorted(edits, reverse=True):
        text = text[:at] + new + text[at:]
    return ('void g_head_begin(int);\nvoid g_head_pointer(int, void *);\n'
            'void g_head_number(int, long);\nvoid g_head_end(void);\n'
            '#line 1 "%s"\n' % src + text + '\n').replace(
                '(PyObject **)&', '&')


WEAK = 5        # variables of a function with a loop to cut, at most

LINE = re.compile(r'^\[([^\]]+)\] (?:line (\d+) )?(.*): '
                  r'(SUCCESS|FAILURE|UNKNOWN|ERROR)$')
NAMED = re.compile(r'^(C\d\d|REACH|BOUND|FRAME): ')


def owner(ident, text):
    """The property an obligation belongs to."""
    m = NAMED.match(text)
    if m:
        return m[1]
    if 'unwind' in ident or 'recursion' in ident:
        return 'BOUND'
    if ident.startswith('h_') and 'dereferenced function pointer' in text:
        return 'SIGNATURE'  # a harness tries the signatures a slot may have
    return 'C23'        # memory safety


def run(run_, gb, t, i, pid, timeout, trace=False, weak=0):
    """Decides one harness: a result dict."""
    t0 = time.time()
    entry = 'm_%s_%d' % (t['name'], i)
    if t['file'].endswith('_cut'):
        entry += '_w%d' % weak
    r = dict(file=SOURCES[t['file']], contract=t['name'],
             shapes=list(t['shapes'][i]), bounded=t['bounded'],
             open=[], closed=[], refuted=[], reached=[],
             status='undecided', why=None)
    p = subprocess.Popen(['cbmc', gb, '--function', entry] + FLAGS +
                         ['--trace'] * trace,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, preexec_fn=limit)
    run_.procs.add(p)
    try:
        out = p.communicate(timeout=timeout)[0].decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        r['why'] = 'no answer within %d s' % timeout
        r['wall'] = time.time() - t0
        return r
    finally:
        run_.procs.discard(p)
    r['wall'] = round(time.time() - t0, 2)
    if trace:
        r['trace'] = out[-20000:]
    lost, seen, state, weaker, unknown = [], 0, [], weak, []
    for line in out.splitlines():
        m = re.search(r'no body for function (\S+)', line)
        if m:
            lost.append('%s is not under contract' % m[1].strip("'`"))
        m = LINE.match(line)
        if not m:
            continue
        ident, where, text, verdict = m.groups()
        seen += 1
        o = owner(ident, text)
        if o == 'REACH':
            if verdict == 'FAILURE':
                r['reached'].append(text[7:])
        elif o == 'FRAME':
            r['closed' if verdict == 'SUCCESS' else 'open'].append(ident)
            if verdict != 'SUCCESS':
                state.append(text[7:])
        elif o == 'BOUND':
            m = re.search(r'loop variable (\d)', text)
            if verdict != 'SUCCESS':
                if m and verdict == 'FAILURE':
                    weaker |= 1 << int(m[1])
                lost.append(text)
        elif o == pid:
            r['closed' if verdict == 'SUCCESS' else 'open'].append(ident)
            if verdict == 'FAILURE':
                r['refuted'].append('%s [%s%s]' % (
                    text, ident, ' line ' + where if where else ''))
            elif verdict != 'SUCCESS':
                unknown.append('%s: %s' % (text, verdict))
    r['reached'] = sorted(set(r['reached']))
    if weaker != weak:
        # not the same each time round: it may be anything
        q = run(run_, gb, t, i, pid, timeout, trace, weaker)
        q['wall'] += r['wall']
        return q
    if not seen:
        r['why'] = 'cbmc gives no answer: ' + out[-300:]
    elif lost:
        r['why'] = '; '.join(sorted(set(lost))[:4])
    elif r['refuted']:
        r['status'] = 'refuted'
    elif unknown:       # an obligation of another property fails before it
        r['why'] = '; '.join(sorted(set(unknown))[:4])
    elif state:
        r['why'] = 'what a call does may depend on earlier ones: ' + \
            '; '.join(sorted(set(state))[:4])
    elif not r['closed']:
        r['why'] = 'no obligations'
    elif not r['reached']:
        r['why'] = 'the contract is vacuous: nothing is reached'
    else:
        r['status'] = 'proved'
    return r


def summary(results):
    """One result per contract, out of those of its shapes."""
    by = {}
    for t, r in results:
        by.setdefault((t['file'], t['name']), (t, []))[1].append(r)
    res, cuts = [], {}
    for t, rs in by.values():
        s = dict(contract='%s:%s' % (SOURCES[t['file']], t['name']),
                 bounded=t['bounded'], shapes=len(rs),
                 reached=sorted({x for r in rs for x in r['reached']}),
                 refuted=sorted({x for r in rs for x in r['refuted']}),
                 wall=round(sum(r['wall'] for r in rs), 1), why=None,
                 harness=t['name'])
        states = {r['status'] for r in rs}
        missing = set(t['reach']) - set(s['reached'])
        if 'refuted' in states:
            s['status'] = 'refuted'
        elif 'undecided' in states:
            s['status'] = 'undecided'
            s['why'] = [r['why'] for r in rs if r['why']][0]
        elif missing:
            s['status'] = 'undecided'
            s['why'] = 'vacuous: never reached: ' + ', '.join(sorted(missing))
        else:
            s['status'] = 'bounded' if t['bounded'] else 'proved'
        if t['file'].endswith('_cut'):
            cuts[t['name']] = s
        else:
            res.append(s)
    for s in res:
        # a proof by induction that fails says nothing: the loop is unwound
        q = cuts.get(s['harness']) if s['status'] == 'bounded' else None
        if q is not None:
            s['wall'] = round(s['wall'] + q['wall'], 1)
            if q['status'] == 'proved':
                s['status'] = 'proved'
                s['unbounded_by'] = 'induction over the chain (cside.cut)'
                s['bounded'] = None
            else:
                s['why'] = 'no proof by induction: %s' % (
                    q['why'] or '; '.join(q['refuted'])[:300])
    return sorted(res, key=lambda s: s['contract'])


def counted(results):
    """Distinct obligations of the contracts that are not bounded."""
    proved = {s['harness'] for s in summary(results)
              if s['status'] == 'proved'}
    results = [(t, r) for t, r in results
               if not t['file'].endswith('_cut') or t['name'] in proved]
    bad = {(t['file'], o) for t, r in results for o in r['open']}
    good = {(t['file'], o) for t, r in results for o in r['closed']
            if not t['bounded'] or t['name'] in proved}
    return len(good | bad), len(good - bad)
