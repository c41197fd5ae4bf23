"""Conversion of ini files (C28): what is written, line by line, for files with every kind of line."""
import os
from . import run, terms as tm, compare as cm, strings as st
from .framework import holds, violated, undecided, funcline, repo_files, SPEC
from .terms import num, mk, UNDEF, TRUE, FALSE
from .chk_io import P
from .chk_io2 import register

FN = 'clean_ini_to_toml'
PATHS = ['config.ini', '/data/TN400/main.ini', 'a.ini.d/mini.ini', 'nini.ini', 'out/ini.ini', './x/gps_n.ini', 'i.ini', 'SR2312 mru.ini']


def convert(path=P):
    return run.evaluate(repo_files(), 'utils', FN, lambda I: ([path], {}, {}))


# -- the input: (line, what has to come out) -------------------------------------------------
def kept(text):
    return text, ('kept', text)


def bare(key, val, comment=None, sep=' = ', mark='//', pre=''):
    return '%s%s%s%s' % (pre + key, sep, val, '  %s %s' % (mark, comment) if comment else ''), ('value', key, val.lower() if val in ('TRUE', 'FALSE') else val, comment)


def text(key, val, comment=None, sep=' = ', mark='//', pre=''):
    return '%s%s%s%s' % (pre + key, sep, val, '  %s %s' % (mark, comment) if comment else ''), ('value', key, '"%s"' % val, comment)


def quoted(key, val, comment=None, sep=' = ', mark='#', known=None):
    return '%s%s"%s"%s' % (key, sep, val, '  %s %s' % (mark, comment) if comment else ''), ('value', key, '"%s"' % val, comment, known)


LINES = {
    'a section': kept('[Device {a:2}]'),
    'a section with spaces before': kept('   [Device]'),
    'a comment': kept('# note {a:3}'),
    'a comment with slashes': kept('// note {a:3}, rate = {b:1}'),
    'a comment after spaces': kept('    // rate = {b:1}'),
    'a comment after a tab': kept('\t# rate = x'),
    'an empty line': kept(''),
    'a line of blanks': kept('   '),
    'a line with a tab': kept('\t'),
    'a flag': bare('flag', 'true'),
    'a flag that is off': bare('flag', 'false'),
    'an upper-case flag': bare('flag', 'TRUE'),
    'an upper-case flag that is off': bare('flag', 'FALSE', sep='='),
    'a flag with a comment': bare('flag', 'TRUE', 'switch {a:2}'),
    'an integer': bare('rate', '{a:3}'),
    'a zero': bare('rate', '0'),
    'a negative number': bare('rate', '-{a:2}', sep='='),
    'a number with decimals': bare('rate', '{a:2}.{b:3}', sep='   =   '),
    'a number with an exponent': bare('rate', '{a:1}.{b:2}e-{c:1}'),
    'a number with a comment': bare('rate', '{a:3}', 'Hz, was {b:3}'),
    'a number with a comment after #': bare('rate', '-{a:3}.{b:1}', 'Hz = 1/s', mark='#'),
    'a number after tabs': bare('rate', '{a:3}', sep='\t=\t'),
    'a text': text('name', 'CTD'),
    'a text without blanks around =': text('name', 'CTD{a:2}', sep='='),
    'a text of several words': text('name', 'ship CTD {a:3} port side'),
    'a text with a comment': text('name', 'CTD {a:3}', 'serial {b:4}'),
    'a text with a comment after #': text('name', 'CTD {a:3}', 'serial {b:4}', mark='#'),
    'a text with a comment holding =': text('name', 'CTD', 'x = {b:4} = y'),
    'a text with a comment holding #': text('name', 'CTD', 'port # {b:1} of 2', mark='#'),
    'a text with =': text('name', 'a=b=c{d:2}'),
    'a text with = and blanks': text('name', 'a = b{d:2}', 'x'),
    'a text that starts with a number': text('name', '{a:2} m'),
    'a list of numbers': text('limits', '{a:2}, {b:2}, {c:3}'),
    'a date': text('day', '{a:4}-{b:2}-{c:2}'),
    'a clock': text('time', '{a:2}:{b:2}:{c:2}'),
    'a path': text('dir', '/data/{a:4}/raw.ini'),
    'a text with a comma and brackets': text('fmt', '{a:1},[x];(y)'),
    'a text with a quote inside': text('name', "it's {a:2}"),
    'a text named true...': text('name', 'trueish'),
    'a text named False': text('name', 'False'),
    'no value': text('name', '', sep=' ='),
    'no value with a comment': ('name =  # later', ('value', 'name', '""', 'later')),
    'a quoted text': quoted('name', 'CTD {a:3}'),
    'a quoted text without blanks': quoted('name', 'CTD {a:3}', sep='='),
    'a quoted text with a comment': quoted('name', 'CTD', 'serial {b:2}'),
    'a quoted text with a comment after //': quoted('name', 'CTD', 'serial {b:2}', mark='//'),
    'a quoted number': quoted('name', '{a:3}'),
    'a quoted flag': quoted('name', 'true'),
    'a quoted text with =': quoted('name', 'a=b {a:1}'),
    'an empty quoted text': quoted('name', ''),
    'a quoted text with slashes': quoted('url', 'udp://{a:3}.{b:2}', known='quoted-rewritten'),
    'a quoted text with TRUE': quoted('name', 'TRUE north', known='quoted-rewritten'),
    'a quoted text with #': quoted('name', 'no # {a:1}'),
    'a key with blanks inside': text('my key', 'x y'),
    'a key after spaces': text('key', 'x y', pre='  '),
    'a key with a section-like value': text('key', '[x]'),
    'a key after a dollar sign': text('key', 'GPGGA {a:2}', pre='$'),
    'a number after a dollar sign': bare('rate', '{a:3}', 'Hz', pre='$'),
    'a flag after a dollar sign': bare('flag', 'TRUE', pre='$'),
    'a line with dollar signs throughout': ('$talkers = $GPGGA, $GPVTG{a:1}', ('value', 'talkers', '"GPGGA, GPVTG{a:1}"', None)),
    'a text with a dollar sign': text('talker', '$GPGGA{a:1}'),
    'a text that ends with a dollar sign': text('price', '{a:2}$', 'now'),
    'a comment with a dollar sign': kept('# costs ${a:2}'),
    'a section with a dollar sign': kept('[$GPGGA]'),
    'a key in upper case': bare('RATE', '{a:3}'),
}


def flat(s, table):
    """a structured text as a string: each symbolic digit is a character of its own"""
    cs = st.chars(s)
    if cs is None:
        return None
    return ''.join(c if type(c) is str else table.setdefault(c, chr(0xE000 + len(table))) for c in cs)


def same_kept(got, want):
    norm = lambda x: ' '.join(x.replace('//', '#').split())
    return norm(got) == norm(want)


def parts(line):
    """(key, value, comment) of a toml line"""
    if '=' not in line:
        return None
    key, rest = line.split('=', 1)
    rest = rest.strip()
    if rest.startswith('"'):
        j = rest.find('"', 1)
        if j < 0:
            return None
        val, tail = rest[:j + 1], rest[j + 1:].strip()
        if tail and not tail.startswith('#'):
            return None
    else:
        val, _, tail = rest.partition('#')
        val = val.strip()
        tail = '#' + tail if _ else ''
    com = tail[1:].strip() if tail else None
    return key.strip(), val, com


def output(o, path, env, where, what):
    """the text written, or a verdict"""
    if o.error:
        return undecided('%s: %s' % (what, o.error), where)
    R = st.Refiner(env)
    if o.value is UNDEF or o.defined is FALSE or R(o.value) is UNDEF or R(o.defined) is FALSE:
        return violated('%s: the conversion fails (%s)' % (what, ', '.join(sorted({n for _, n in o.raises}))), where)
    e = R(o.effects)
    if e.op == 'unk' or e.op != 'vec':
        return undecided('%s: %s' % (what, tm.show(e, 4)[:200]), where)
    out = {}
    for x in e.args:
        if x.op != 'effect' or x.args[0] is not mk('str', 'write') and x.args[0] != 'write':
            return undecided('%s: %s' % (what, tm.show(x, 3)[:200]), where)
        out.setdefault(x.args[1], []).append(x.args[2])
    return out


def line_check(names, label, end='\n'):
    def check():
        where = funcline('utils', FN)
        path = mk('str', 'survey.ini')
        o = convert(path)
        src = [LINES[n][0] for n in names]
        txt = ('\n'.join(src) + end) if src else ''
        env = {mk('readall', path): st.layout(txt, num(0), ''), mk('lines', path): tm.vec(*[st.layout(x, num(0), '') for x in txt.splitlines(True)])}
        out = output(o, path, env, where, label)
        if not isinstance(out, dict):
            return out
        dest = mk('str', 'survey.toml')
        if not out:
            return violated('%s: nothing is written' % label, where) if names else holds('empty')
        if set(out) != {dest}:
            if all(k.op in ('str', 'cstr') for k in out):
                return violated('%s: written to %s' % (label, ', '.join(tm.show(k, 3) for k in out)), where)
            return undecided('%s: written to %s' % (label, ', '.join(tm.show(k, 3)[:80] for k in out)), where)
        table = {}
        got = ''
        for t in out[dest]:
            f = flat(t, table)
            if f is None:
                return undecided('%s: text not decided: %s' % (label, tm.show(t, 5)[:200]), where)
            got += f
        lines = got.split('\n')
        while len(lines) > len(names) and lines[-1].strip() == '':
            lines.pop()
        if len(lines) != len(names):
            return violated('%s: %d lines come out of %d' % (label, len(lines), len(names)), where, got=show(got, table), want='\n'.join(src))
        vs = []
        for n, line in zip(names, lines):
            vs.append(judge(n, line, table, where, label))
        bad = [v for v in vs if v.status == 'violated']
        return bad or [v for v in vs if v.status == 'known'] or holds('%s: %d lines' % (label, len(names)), pairs=len(names), analysed=sorted('%s' % (x,) for x in o.analysed))
    register('C28', label, check)


def show(text, table):
    inv = {c: t for t, c in table.items()}
    return ''.join('{%s}' % tm.show(inv[c], 2) if c in inv else c for c in text)


def judge(name, line, table, where, label):
    from .framework import Verdict
    want = LINES[name][1]
    tr = lambda x: None if x is None else flat(st.layout(x, num(0), ''), table)
    if want[0] == 'kept':
        if same_kept(line, tr(want[1])):
            return holds(name)
        return violated('%s: %s comes out as %r' % (label, name, show(line, table)), where, got=show(line, table), want=want[1])
    p = parts(line)
    goal = (want[1], tr(want[2]), tr(want[3]))
    if p == goal:
        return holds(name)
    if len(want) > 4 and want[4] and p is not None:
        v = want[2].replace('//', '#').replace('TRUE', 'true').replace('FALSE', 'false')
        if p == (want[1], tr(v), tr(want[3])):
            return Verdict('known', '%s: %s is rewritten inside the quotes' % (label, name), where, want[4])
    return violated('%s: %s comes out as %r' % (label, name, show(line, table)), where, got=show(line, table), want='%s = %s%s' % (want[1], want[2], '  # ' + want[3] if want[3] else ''))


for _n in LINES:
    line_check([_n], 'a file with %s' % _n)
ALL = [n for n in LINES if 'slashes' not in n or 'quoted' not in n]
ALL = [n for n in ALL if n != 'a quoted text with TRUE']
line_check(ALL, 'every kind of line')
line_check(ALL[::-1], 'every kind of line, reversed')
line_check(['a section', 'a text', 'a number with a comment', 'a text'], 'no newline at the end', end='')
line_check(['a text', 'an empty line', 'an empty line', 'a text'], 'repeated lines')
line_check([], 'an empty file')
line_check(['an empty line', 'a line of blanks', 'a comment', 'an empty line', 'a text'], 'blank lines first')


def path_check(p):
    def check():
        where = funcline('utils', FN)
        path = mk('str', p)
        o = convert(path)
        txt = 'a = {b:2}\n'
        env = {mk('readall', path): st.layout(txt, num(0), ''), mk('lines', path): tm.vec(st.layout(txt, num(0), ''))}
        out = output(o, path, env, where, p)
        if not isinstance(out, dict):
            return out
        dest = p[:-4] + '.toml'
        for k in list(out) + [st.Refiner(env)(o.value)]:
            if k is not mk('str', dest):
                if k.op in ('str', 'cstr', 'none', 'num', 'undef'):
                    return violated('%s: %s instead of %s' % (p, tm.show(k, 3), dest), where)
                return undecided('%s: %s' % (p, tm.show(k, 3)[:200]), where)
        for e in o.events:
            if e[0] == 'open' and isinstance(e[4], tm.T) and e[4] is mk('str', dest) and isinstance(e[3], str) and ('a' in e[3] or '+' in e[3] and 'w' not in e[3]):
                return violated('%s: the output file is opened in mode %s' % (p, e[3]), where)
        return holds('%s -> %s' % (p, dest), analysed=sorted('%s' % (x,) for x in o.analysed))
    register('C28', 'output path of %s' % p, check)


for _p in PATHS:
    path_check(_p)


def general():
    """any file: the text written is the reference's, line by line"""
    where = funcline('utils', FN)
    o = convert()
    r = run.evaluate(dict(repo_files(), spec_utils=os.path.join(SPEC, 'utils.py')), 'spec_utils', 'ini_to_toml', lambda I: ([P], {}, {}))
    if o.error or r.error:
        return undecided(o.error or r.error, where)
    v = cm.Comparer().cmp(o.effects, r.effects)
    if v.v == cm.EQ:
        return holds('any file')
    return undecided('any file: not the same value graph as the reference (%s)' % v.note, where)


register('C28', 'any number of lines of any text', general)
