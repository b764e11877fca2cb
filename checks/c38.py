"""C38: template rendering."""
import random, re
from vlib import build, pure, common

TECHNIQUE = 'runtime monitoring: templates composed of known text, placeholders and values rendered by the library built with ASan+UBSan and library assertions, compared with the composition; arbitrary templates under the sanitizers and a watchdog'
NOTE = 'A placeholder is {{ name }} with a name of letters, digits and underscores and optional spaces or tabs around it; one whose name is unknown gives no text. Templates whose braces can be read in more than one way are only run, not judged.'

NAMES = ['a', 'name', 'svcpage_statuscode', 'x1', '_', 'Name', 'NAME', '0', 'a_b', 'n' * 60]
TEXT = ['', ' ', 'hello', '<div>', '\n', '{', '}', '{ a }', '} }', '{ {', '$1', '\\', '%s', '\0', 'é', '&amp;', 'a', 'name', '{a}', '}{', 'x' * 1000]
OTHER = ['{{}}', '{{ }}', '{{a b}}', '{{ a-b }}', '{{a.b}}', '{{ "a" }}', '{{#a}}', '{{/a}}', '{{é}}', '{{ a\nb }}', '{{!}}', '{{\t}}']
VALS = ['', 'value', '{{a}}', '{{ name }}', '{{', '}}', '{', '}', '}}{{', '{{a', 'a}}', '{{{{a}}}}', 'x' * 2000, '\0', '<b>', '$&', '\\1', '{{ unknown }}', '{{ svcpage_statuscode }}', 'é', '{{x1}}{{x1}}', ' ', '\n']


def other(rng):
    """Text in double braces that is no placeholder."""
    while True:
        t = rng.choice(['', ' ', '\t', '  ']) + rng.choice(NAMES + ['!', '-', '']) + rng.choice(['', ' ', '\t', '!', '.', '|', ' ! ', ' - ', ' | trim', ' .', '\n', ' \xe9', ' b', '\0', '(', ' ,']) + rng.choice(['', ' ', '\t', '!', ' a'])
        if not re.fullmatch('[ \t]*[A-Za-z0-9_]+[ \t]*', t):
            return '{{' + t + '}}'


def gen(rng):
    props = {n: rng.choice(VALS) if rng.random() < 0.8 else ''.join(rng.choice(VALS) for _ in range(3)) for n in rng.sample(NAMES, rng.randrange(0, len(NAMES)))}
    tpl, out, n = '', '', 0
    for _ in range(rng.choice([1, 3, 8, 30])):
        k = rng.random()
        if k < 0.45:
            t = ''.join(rng.choice(TEXT) for _ in range(rng.randrange(1, 4)))
            while '{{' in t or '}}' in t:
                t = t.replace('{{', '{').replace('}}', '}')
            if tpl.endswith(('{', '}')) and t.startswith(('{', '}')):
                t = ' ' + t
            tpl += t
            out += t
        else:
            if tpl.endswith('{'):
                tpl += ' '
                out += ' '
            if k < 0.55:
                p = rng.choice(OTHER) if rng.random() < 0.4 else other(rng)
                tpl += p
                out += p
            else:
                name = rng.choice(NAMES + ['unknown', 'zz9'])
                tpl += '{{' + rng.choice(['', ' ', '\t', '  ', ' \t ']) + name + rng.choice(['', ' ', '\t', '  ']) + '}}'
                out += props.get(name, '')
                n += 1
            t = rng.choice(['', '', '.', ' '])
            tpl += t
            out += t
    return tpl, props, out, n


def ambiguous(tpl):
    return '{{{' in tpl or '}}}' in tpl


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'a template with at least one placeholder, identified by its text and properties'
    calls = []
    for i in range(c.scale(12000, 200000)):
        tpl, props, out, n = gen(random.Random('%s/%d' % (c.seed, i)))
        if ambiguous(tpl):
            continue
        calls.append((['render', tpl] + [x for kv in props.items() for x in kv], (out, n)))
    for i in range(c.scale(12000, 200000)):
        rng = random.Random('%s/j%d' % (c.seed, i))
        t = ''.join(rng.choice(['{', '}', '{{', '}}', 'a', ' ', '\t', 'name', '{{a}}', '{{ name', '\0', 'é', '\xff', '-']) for _ in range(rng.randrange(15)))
        calls.append((['render', t, 'a', rng.choice(VALS), 'name', rng.choice(VALS), '', 'empty-name'], None))
    for n in (1000, 20000):
        calls.append((['render', '{{a}}' * n, 'a', '{{a}}'], ('{{a}}' * n, n)))
        calls.append((['render', '{{' * n, 'a', 'x'], None))
        calls.append((['render', '{{ ' + 'a' * n + ' }}', 'a' * n, 'v'], ('v', 1)))

    def judge(args, r, x):
        if r[0] != b'K':
            c.violation('exception', '%s threw %r' % (common.show(args), r[1:]))
            return
        if x is None:
            c.count('arbitrary_templates')
            c.case()
            return
        out, n = x
        c.case(repr(args)[:5000] if n else None, common.show(args, 100) if n else None)
        c.count('placeholders', n)
        if r[1] != out.encode():
            c.violation('render', '%s gave %s instead of %s' % (common.show(args, 1000), common.show(r[1], 500), common.show(out.encode(), 500)), args=repr(args)[:5000])
    pure.run(c, exe, calls, judge)
    c.require('placeholders', 10000)
    c.require('arbitrary_templates', 5000)
