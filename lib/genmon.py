"""Monitors that watch the generator itself run: what it writes, where, whether
twice the same, and what it does with declarations it cannot handle."""
import concurrent.futures as cf
import hashlib
import os
import re
import shutil
import subprocess

import corpus
import special
from pipeline import out_name

HEADER = '// Code generated [github.com/iv-menshenin/valyjson]; DO NOT EDIT.'
UTILS = 'valyjson_utils.go'


class Rec:
    """what a monitor saw; same layout as the Go monitors' reports"""

    def __init__(self):
        self.counts = {'evaluations': 0}
        self.samples = []
        self.finds = []
        self.nviol = 0
        self.seen = set()
        self.extra = 0

    def case(self, key):
        self.counts['evaluations'] += 1
        self.seen.add(key)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 24:
            self.samples.append(s[:400])

    def violation(self, typ, what, inp='', got=''):
        self.nviol += 1
        if len(self.finds) < 500:
            self.finds.append({'kind': 'violation', 'type': typ, 'class': 'generator', 'what': what,
                               'input': inp[:3000], 'got': got[:3000]})

    def report(self):
        self.counts['distinct'] = len(self.seen) + self.extra
        return {'counts': self.counts, 'samples': self.samples, 'finds': self.finds, 'violations': self.nviol, 'known': {}}


def snapshot(root):
    """every entry below root -> (kind, content hash or link target)"""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root) + '/'] = 'link ' + os.readlink(p) if os.path.islink(p) else 'dir'
        for n in files:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = 'link ' + os.readlink(p)
                continue
            st = os.stat(p)
            out[os.path.relpath(p, root)] = '%o %s' % (st.st_mode & 0o777, hashlib.sha256(open(p, 'rb').read()).hexdigest())
    return out


def sources(root, pkg):
    """the outputs of pkg under root: relative path -> bytes"""
    out = {}
    for g in pkg['gen']:
        o = out_name(g)
        for f in (o, os.path.join(os.path.dirname(g), UTILS)):
            p = os.path.join(root, f)
            out[f] = open(p, 'rb').read() if os.path.exists(p) else None
    return out


def args_for(pkg, root='', outs=None):
    a = []
    if pkg.get('internals'):
        a += ['-internals', ','.join(pkg['internals'])]
    for g in pkg['gen']:
        a += [os.path.join(root, g), os.path.join(root, (outs or out_name)(g))]
    return a


def ok(res, pkg):
    return len(res) == len(pkg['gen']) and all(x['ok'] for x in res)


def why(r, res):
    return '; '.join((x.get('panic') or x.get('err') or '') for x in res if not x['ok'])[:600] or r.stderr[-600:]


def all_packages(seed, combos):
    return corpus.shape_packages() + special.special_packages(seed) + [special.combo(seed * 1000 + i) for i in range(combos)]


# ---------------------------------------------------------------- compile
ALLOWED_IMPORTS = re.compile(r'^(github\.com/valyala/fastjson(/\S*)?|github\.com/mailru/easyjson/jwriter|'
                             r'github\.com/google/uuid|github\.com/pkg/errors|[a-z0-9]+(/[a-z0-9]+)*)$')


def generated_imports(text):
    m = re.search(r'^import \((.*?)^\)', text, re.M | re.S)
    block = m.group(1) if m else ''
    one = re.findall(r'^import (?:\w+ )?"([^"]+)"', text, re.M)
    return re.findall(r'"([^"]+)"', block) + one


def mon_compile(work, rec, pkgs):
    """every package of the corpus, generated, is accepted by the compiler"""
    rep = {}
    for p in pkgs:
        for g in p['gen']:
            rec.case(p['name'] + '/' + g)
            n = sum(1 for t in corpus.types_of(p))
        rec.count('types', n)
    for name, e in work.gen_fail.items():
        rec.violation(name, 'the generator refuses supported declarations', pkg_text(pkgs, name), e)
    for name, e in work.build_fail.items():
        rec.violation(name, 'the generated code does not compile', pkg_text(pkgs, name), e)
    for p in work.pkgs:
        if p['name'] in work.build_fail:
            continue
        root = os.path.join(work.corp, 'c', p['name'])
        for f, b in sources(root, p).items():
            if b is None:
                rec.violation(p['name'], 'no output file ' + f)
                continue
            text = b.decode()
            for imp in generated_imports(text):
                rec.count('imports_checked')
                if 'valyjson' in imp or not (ALLOWED_IMPORTS.match(imp) or imp.startswith(p['mod'] + '/')
                                             or any('"%s"' % imp in s for s in p['files'].values())):
                    rec.violation(p['name'], 'generated code imports ' + imp, f)
    return rep


def pkg_text(pkgs, name):
    for p in pkgs:
        if p['name'] == name:
            return '\n'.join('-- %s --\n%s' % kv for kv in p['files'].items())
    return ''


# ------------------------------------------------------------ determinism
def mon_determinism(work, rec, pkgs, repeat):
    base = os.path.join(work.dir, 'det')
    os.makedirs(base, exist_ok=True)

    def fresh(pkg, tag, *sub):
        root = os.path.join(base, tag, *(list(sub) + [pkg['name']]))
        shutil.rmtree(root, ignore_errors=True)
        work.write_pkg(pkg, root)
        return root

    def cmp_(pkg, ref, got, how):
        for f, b in ref.items():
            rec.case('%s/%s/%s' % (how, pkg['name'], f))
            if got.get(f) != b:
                a, c = (b or b'').decode(errors='replace'), (got.get(f) or b'').decode(errors='replace')
                rec.violation(pkg['name'], 'output of %s differs %s' % (f, how), pkg_text([pkg], pkg['name']), first_diff(a, c))

    def env(**kw):
        e = dict(work.env)
        e.update(kw)
        return e

    def run(args, cwd, e=None):
        r = work.run([work.vgen] + args, cwd, 120, e)
        res = []
        import json
        for line in r.stdout.split('\n'):
            if line.startswith('{'):
                try:
                    res.append(json.loads(line))
                except ValueError:
                    pass
        return r, res

    def one(pkg):
        root = fresh(pkg, 'ref')
        r, res = run(args_for(pkg, root), work.dir)
        if not ok(res, pkg):
            return None  # the compile monitor's business
        ref = sources(root, pkg)
        # the same call again and again (map order and scheduling are re-randomised in every process)
        for k in range(repeat):
            rt = fresh(pkg, 'rep')
            e = env(GOMAXPROCS=str([1, 8, 2, 4][k % 4]), GOGC=['off', '1', '100'][k % 3], TZ=['UTC', 'Asia/Tokyo', ''][k % 3],
                    LANG=['C', 'ru_RU.UTF-8'][k % 2])
            r, res = run(args_for(pkg, rt), work.dir, e)
            cmp_(pkg, ref, sources(rt, pkg) if ok(res, pkg) else {}, 'between runs')
            rec.count('processes')
        # another place on disk
        rt = fresh(pkg, 'elsewhere', 'a b', 'deeper', 'zz')
        r, res = run(args_for(pkg, rt), '/')
        cmp_(pkg, ref, sources(rt, pkg) if ok(res, pkg) else {}, 'by directory')
        # directories whose names mean something to other tools
        for sub in (('testdata',), ('vendor', 'x'), ('internal',), ('_under',), ('.hidden',), ('node_modules', 'p'), ('a-b.c+d', 'ünï'),
                    ('main_test',), ('src', 'pkg', 'mod'), ('x.go',)):
            rt = fresh(pkg, 'odd', *sub)
            r, res = run(args_for(pkg, rt), work.dir)
            cmp_(pkg, ref, sources(rt, pkg) if ok(res, pkg) else {}, 'below directory ' + '/'.join(sub))
            rec.count('processes')
            shutil.rmtree(rt, ignore_errors=True)
        # relative paths
        rt = fresh(pkg, 'rel')
        r, res = run(args_for(pkg, ''), rt)
        cmp_(pkg, ref, sources(rt, pkg) if ok(res, pkg) else {}, 'with relative paths')
        rt = fresh(pkg, 'rel2')
        r, res = run(args_for(pkg, '.'), rt)
        cmp_(pkg, ref, sources(rt, pkg) if ok(res, pkg) else {}, 'with ./ paths')
        rec.count('processes', 3)
        # over its own earlier output, twice, and with an older longer output in place
        for k in range(2):
            r, res = run(args_for(pkg, root), work.dir)
            cmp_(pkg, ref, sources(root, pkg) if ok(res, pkg) else {}, 'when generated again in place')
            rec.count('processes')
        for f, b in ref.items():
            with open(os.path.join(root, f), 'ab') as fh:
                fh.write(b'\n// stale\n' * 50 + b'func (S *stale) Leftover() {}\n' * 400)
        r, res = run(args_for(pkg, root), work.dir)
        cmp_(pkg, ref, sources(root, pkg) if ok(res, pkg) else {}, 'over a longer stale output')
        rec.count('processes')
        for f, b in ref.items():
            p = os.path.join(root, f)
            with open(p, 'wb') as fh:
                fh.write(b.replace(b'json', b'jsom').replace(b'func', b'fumc') if f.endswith('.gen.go') else b.replace(b'error', b'errer'))
            os.utime(p, (2e9, 2e9))
        r, res = run(args_for(pkg, root), work.dir)
        cmp_(pkg, ref, sources(root, pkg) if ok(res, pkg) else {}, 'over a stale output of the same size')
        rec.count('processes')
        # one process per file / all files in one process
        if len(pkg['gen']) > 1:
            rt = fresh(pkg, 'single')
            good = True
            for g in pkg['gen']:
                sub = dict(pkg, gen=[g])
                r, res = run(args_for(sub, rt), work.dir)
                good = good and ok(res, sub)
                rec.count('processes')
            cmp_(pkg, ref, sources(rt, pkg) if good else {}, 'when files are generated by separate processes')
        # unrelated content beside the source: other files, other packages, other outputs
        rt = fresh(pkg, 'crowded')
        for n in range(6):
            d = os.path.join(rt, 'zz_unrelated%d' % n)
            os.makedirs(d)
            open(os.path.join(d, 'f.go'), 'w').write('package unrelated%d\n\ntype Unrelated struct{ A int }\n' % n)
        open(os.path.join(rt, 'aaa.txt'), 'w').write('not go')
        r, res = run(args_for(pkg, rt), work.dir)
        cmp_(pkg, ref, sources(rt, pkg) if ok(res, pkg) else {}, 'when unrelated packages are added to the module')
        rec.count('processes')
        # another output name: same text
        rt = fresh(pkg, 'named')
        r, res = run(args_for(pkg, rt, lambda g: g[:-3] + '_valy_out.go'), work.dir)
        if ok(res, pkg):
            got = {}
            for f in ref:
                p = os.path.join(rt, f.replace('.gen.go', '_valy_out.go'))
                got[f] = open(p, 'rb').read() if os.path.exists(p) else None
            cmp_(pkg, ref, got, 'by output name')
        else:
            cmp_(pkg, ref, {}, 'by output name')
        rec.count('processes')
        return ref

    refs = {}
    with cf.ThreadPoolExecutor(8) as ex:
        # per package directories are disjoint, so packages may run side by side
        for pkg, ref in zip(pkgs, ex.map(one, pkgs)):
            if ref:
                refs[pkg['name']] = (pkg, ref)
                rec.sample('%s: %d output files identical over the runs' % (pkg['name'], len(ref)))
    # everything in one process, in two orders
    names = sorted(refs)
    for how, order in (('in one process', names), ('in one process, reverse order', names[::-1])):
        args = []
        roots = {}
        for n in order:
            pkg = refs[n][0]
            if pkg.get('internals'):
                continue
            roots[n] = fresh(pkg, 'onep')
            for g in pkg['gen']:
                args += [os.path.join(roots[n], g), os.path.join(roots[n], out_name(g))]
        run(args, work.dir)
        rec.count('processes')
        for n in roots:
            pkg, ref = refs[n]
            cmp_(pkg, ref, sources(roots[n], pkg), how)
    shutil.rmtree(base, ignore_errors=True)


def first_diff(a, b):
    al, bl = a.splitlines(), b.splitlines()
    for i in range(max(len(al), len(bl))):
        x = al[i] if i < len(al) else '<end>'
        y = bl[i] if i < len(bl) else '<end>'
        if x != y:
            return 'line %d: %r / %r' % (i + 1, x, y)
    return 'different bytes'


# ------------------------------------------------- what the code depends on
def top_level(text):
    """top level declarations of generated code by receiver and name"""
    out = {}
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        if re.match(r'(func|type|var|const)\b', l):
            j = i
            if l.endswith('{') or l.endswith('('):
                while j < len(lines) - 1 and lines[j] not in ('}', ')'):
                    j += 1
            m = re.match(r'func (?:\(\w*\s*(\*?\w+)\) )?(\w+)', l)
            k = '.'.join(x for x in (m.group(1) or '', m.group(2)) if x) if m else l
            if k in out:
                k += ' again at %d' % i
            out[k] = '\n'.join(lines[i:j + 1])
            i = j
        i += 1
    return out


GOWORDS = {'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64'}


def canon(body):
    """numbered local names by order of appearance: how temporaries are numbered is nobody's business"""
    names = {}

    def sub(m):
        if m.group(1) or not m.group(2) or m.group(2) in GOWORDS:
            return m.group(0)
        return names.setdefault(m.group(2), 'local#%d' % len(names))
    return re.sub(r'("(?:[^"\\]|\\.)*"|`[^`]*`|\.\w+|//[^\n]*)|\b([a-z][A-Za-z_]*\d+)\b', sub, body)


def decl_blocks(src):
    """head of a corpus file (package, imports) and its declarations, each with its comments"""
    lines = src.split('\n')
    starts = []
    for i, l in enumerate(lines):
        if l.startswith('//vt:'):
            j = i
            while j > 0 and lines[j - 1].startswith('//'):
                j -= 1
            if j not in starts:
                starts.append(j)
    if not starts:
        return src, []
    cut = starts + [len(lines)]
    return '\n'.join(lines[:starts[0]]) + '\n', ['\n'.join(lines[a:b]).rstrip('\n') + '\n\n' for a, b in zip(cut, cut[1:])]


META_NOISE = """
// zqNoise stands beside the types.
type zqNoise struct {
	A, B int
	c    func(int) chan string
}

const zqConst = "json:\\"a\\""

var zqVar = map[string]interface{}{"a": nil}

func (n *zqNoise) MarshalJSON() ([]byte, error) { return nil, nil }

func zqFunc(a ...interface{}) (err error) {
	type T struct {
		A int `json:"a"`
	}
	var _ T
	return nil
}

"""
META_TYPE = """
//json:x
type Zq%(n)s struct {
	A int64             `json:"zqa" default:"7"`
	B string            `json:"zqb,required"`
	C map[string]string `json:"zqc,omitempty"`
	D []float64         `json:"zqd"`
	E *Zq%(n)sPart      `json:"zqe"`
	F [2]bool           `json:"zqf,omitempty"`
}

//json:x
//json:strict
type Zq%(n)sPart struct {
	A int `json:"zqa,omitempty"`
}

//json:x
type Zq%(n)sMap map[string]Zq%(n)sPart

//json:x
type Zq%(n)sList []*Zq%(n)s

"""


def meta_variants(src, rnd, more):
    """texts that declare the same types (or some of them): (how, text, kind); kind 'all': every declaration of the
    original is generated alike; 'sub': what is generated is generated alike; a dict: new names -> old names"""
    head, bl = decl_blocks(src)
    ty = re.compile(r'(?m)^type (\w+)\b')
    names = [n for b in bl for n in ty.findall(b)]
    member = re.compile(r'(?m)^(\t[^\n`"/]*)`([^`\n]*)`$')
    yield 'with CRLF line ends', src.replace('\n', '\r\n'), 'all'
    yield 'with remarks', member.sub(lambda m: m.group(0) + ' // a remark: type X struct { A int `json:"zzz"` }', src), 'all'
    yield 'with comments above members', member.sub(lambda m: '\t// %s is what it is. default:"1"\n\t//json:strict\n' % m.group(1).split()[0].strip('*') + m.group(0), src), 'all'
    yield 'with blank lines', head + '\n\n\n' + '\n\n\n'.join(bl), 'all'
    yield 'with other tags', member.sub(lambda m: m.group(1) + '`xml:"zz,omitempty" ' + m.group(2) + ' yaml:"-" bson:"json:x,required"`', src), 'all'
    yield 'without indentation', '\n'.join(l.lstrip('\t') for l in src.split('\n')), 'all'
    yield 'with noise behind', src + META_NOISE, 'all'
    yield 'with other types behind', src + META_TYPE % {'n': 'Last'}, 'sup'
    if not bl:
        return
    yield 'with noise before', head + META_NOISE + ''.join(bl), 'all'
    yield 'with other types before', head + META_TYPE % {'n': 'First'} + ''.join(bl), 'sup'
    mid = len(bl) // 2
    yield 'with both between', head + ''.join(bl[:mid]) + META_TYPE % {'n': 'Mid'} + META_NOISE + ''.join(bl[mid:]), 'sup'
    flip = [n for n in names if n.swapcase() != n and n.swapcase() not in names and not re.search(r'\b%s\b' % n.swapcase(), src)][:12]
    other = ''.join('//json:x\ntype %s struct {\n\tZ int `json:"z"`\n}\n\n' % n.swapcase() for n in flip)
    if flip:
        yield 'with types before whose names differ by case', head + other + ''.join(bl), 'sup'
        yield 'with types behind whose names differ by case', src + '\n' + other, 'sup:' + ' '.join('*%s.FillFromJSON' % n.swapcase() for n in flip)
    yield 'in reverse order', head + ''.join(reversed(bl)), 'all'
    for k in range(3 if more else 1):
        sh = bl[:]
        rnd.shuffle(sh)
        yield 'shuffled', head + ''.join(sh), 'all'
    plain = [n for n in names if len(n) > 1 and not re.search(r'(?m)^\t(?:\w+, )*\*?(?:\w+\.)?%s\b' % n, src)]
    for pre in ('Zq', 'zq'):
        ren = {n: pre + n for n in rnd.sample(plain, min(len(plain), 40))}
        if ren:
            pat = re.compile(r'(?<!\.)\b(%s)\b' % '|'.join(sorted(ren, key=len, reverse=True)))

            def code(l):
                parts = re.split(r'(`[^`]*`|//.*)', l)
                return ''.join(x if k % 2 else pat.sub(lambda m: ren[m.group(1)], x) for k, x in enumerate(parts))
            yield 'renamed ' + pre, '\n'.join(code(l) for l in src.split('\n')), {v: k for k, v in ren.items()}
    m = re.search(r'^import \((.*?)^\)', head, re.M | re.S)
    for line in (m.group(1).split('\n') if m else []):
        one = re.match(r'^\t"(?:[\w./-]*/)?(\w+)"$', line)
        if one:
            nm = one.group(1)
            pat = re.compile(r'(?<![\w.])%s\.' % nm)
            if not pat.search(''.join(bl)):
                continue  # the package is called otherwise
            body = '\n'.join(''.join(x if k % 2 else pat.sub('zq%s.' % nm, x) for k, x in enumerate(re.split(r'(`[^`]*`|//.*)', l)))
                             for b in bl for l in b.split('\n'))
            yield 'importing %s by another name' % nm, head.replace(line, '\tzq%s %s' % (nm, line.strip())) + body, {'zq' + nm: nm}
    ident = [set(re.findall(r'\w+', re.sub(r'`[^`]*`|//.*', '', b))) for b in bl]
    own = [set(ty.findall(b)) for b in bl]
    par = list(range(len(bl)))

    def root(x):
        while par[x] != x:
            x = par[x]
        return x
    for i in range(len(bl)):
        for j in range(len(bl)):
            if i != j and ident[i] & own[j]:
                par[root(i)] = root(j)
    comps = {}
    for i in range(len(bl)):
        comps.setdefault(root(i), []).append(i)
    cs = [c for c in comps.values() if any(own[i] for i in c)]
    if len(cs) > 1:
        for c in rnd.sample(cs, min(12 if more else 3, len(cs))):
            yield 'alone', head + ''.join(bl[i] for i in c), 'sub'
        half = sorted(i for c in ([c for c in cs if rnd.random() < .5] or cs[:1]) for i in c)
        yield 'some left out', head + ''.join(bl[i] for i in half), 'sub'


META_MODULES = ['app', 'example.com/go-app/v2', 'corp', 'x/corp/c/%s', 'github.com/iv-menshenin/valyjson/x', 'a.b/c-d_e~f', 'corp/c/%s/part', 'time/x']


def mon_meta(work, rec, pkgs, seed, more):
    """the code of a type depends on its declaration and those it uses, and on nothing beside them"""
    import json
    import random
    base = os.path.join(work.dir, 'meta')

    def gen(p, tag, files=None, mod=None, only=None):
        root = os.path.join(base, p['name'], tag)
        q = dict(p, files={**p['files'], **(files or {})}, gen=only or p['gen'])
        if mod:
            path = re.compile(r'(?<![\w/])%s(?=[/"\s]|$)' % re.escape(p['mod']))
            q.update(mod=mod, files={f: path.sub(mod, t) for f, t in q['files'].items()},
                     internals=[path.sub(mod, x) for x in p.get('internals') or []])
        work.write_pkg(q, root)
        r = work.run([work.vgen] + args_for(q, root), work.dir, 120)
        res = [json.loads(x) for x in r.stdout.split('\n') if x.startswith('{')]
        out = None
        if ok(res, q):
            out = {}
            for g in q['gen']:
                text = open(os.path.join(root, out_name(g)), newline='').read()
                out[g] = top_level(text)
                out[g]['import'] = '\n'.join(sorted(generated_imports(text)))
                if mod:
                    out[g]['import'] = re.sub(r'(?m)^%s(?=/|$)' % re.escape(mod), p['mod'], out[g]['import'])
                    out[g]['import'] = '\n'.join(sorted(out[g]['import'].split('\n')))
        shutil.rmtree(root, ignore_errors=True)
        return out, why(r, res)

    def one(p):
        rep = []
        ref, w = gen(p, 'ref')
        if ref is None:
            return None  # the compile monitor's business
        for g in p['gen']:
            rnd = random.Random('%s/%s/%s' % (seed, p['name'], g))
            for n, (how, text, kind) in enumerate(meta_variants(p['files'][g], rnd, more)):
                if (kind == 'sub' or isinstance(kind, dict)) and (g != 'types.go' or any('/' not in f and f != g for f in p['files'])):
                    continue  # others in the package may use the names
                got, w = gen(p, '%d-%s' % (n, g.replace('/', '_')), {g: text}, only=[g])
                if got is None:
                    rep.append((g, how, text, 1, ['the generator refuses it'], w))
                    continue
                a, b = ref[g], got[g]
                if isinstance(kind, str) and kind.startswith('sup:'):
                    lost = [k for k in kind[4:].split() if k not in b]
                    kind = 'sup'
                    if lost and not p['name'].startswith('tagctl'):
                        rep.append((g, how, text, 1, lost, 'nothing is generated for it'))
                        continue
                if isinstance(kind, dict):
                    back = re.compile(r'(%s)\b' % '|'.join(sorted(kind, key=len, reverse=True)))
                    b = {back.sub(lambda m: kind[m.group(1)], k): back.sub(lambda m: kind[m.group(1)], t) for k, t in b.items()}
                keys = (set(b) if kind == 'sub' else set(a) if kind == 'sup' else set(a) | set(b)) - ({'import'} if kind in ('sub', 'sup') else set())
                bad = sorted(k for k in keys if a.get(k) != b.get(k) and canon(a.get(k, '')) != canon(b.get(k, '')))
                rep.append((g, how, text, len(keys), bad, first_diff(a.get(bad[0], ''), b.get(bad[0], '')) if bad else ''))
        for n, mod in enumerate(META_MODULES[:None if more else 3]):
            mod = mod % p['name'] if '%s' in mod else mod
            got, w = gen(p, 'mod%d' % n, None, mod)
            for g in p['gen']:
                how = 'in a module called ' + mod
                if got is None:
                    rep.append((g, how, p['files'][g], 1, ['the generator refuses it'], w))
                    break
                a, b = ref[g], got[g]
                bad = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k) and canon(a.get(k, '')) != canon(b.get(k, '')))
                rep.append((g, how, p['files'][g], len(a), bad, first_diff(a.get(bad[0], ''), b.get(bad[0], '')) if bad else ''))
        return rep

    with cf.ThreadPoolExecutor(8) as ex:
        for p, rep in zip(pkgs, ex.map(one, pkgs)):
            if rep is None:
                continue
            rec.count('packages')
            for g, how, text, n, bad, diff in rep:
                rec.case('%s/%s/%s' % (p['name'], g, how))
                rec.count('compared', n)
                rec.count('variants')
                if bad:
                    rec.violation(p['name'], 'code of %s differs when the file is %s' % (bad[0], how), text, diff)
            rec.sample('%s: %d variants' % (p['name'], len(rep)))
    shutil.rmtree(base, ignore_errors=True)


# ------------------------------------------------------------ the command
def mon_command(work, rec):
    """the command of the repository generates its sample anew, and nothing beside it"""
    from pipeline import REPO
    root = os.path.join(work.dir, 'command')
    repo = os.path.join(root, 'repo')
    shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns('.git'), symlinks=True)
    binp = os.path.join(root, 'valyjson')
    r = work.run(['go', 'build', '-o', binp, '.'], repo)
    rec.case('command/build')
    if r.returncode:
        rec.violation('command', 'the command does not build', '', r.stderr)
        return
    tmp = os.path.join(root, 'tmp')
    os.makedirs(tmp)
    env = dict(work.env, TMPDIR=tmp, HOME=tmp)
    want = {'repo/benchmark/data_json.go', 'repo/benchmark/' + UTILS}
    src = os.path.join(repo, 'benchmark', 'data.go')
    first = None
    for phase in ('as checked out', 'again', 'without earlier output', 'over garbage'):
        for f in want:
            p = os.path.join(root, f)
            if phase == 'without earlier output' and os.path.exists(p):
                os.remove(p)
            if phase == 'over garbage':
                open(p, 'w').write('garbage {{{\n' * 9999)
        before = snapshot(root)
        r = work.run([binp], repo, 120, env)
        after = snapshot(root)
        rec.case('command/%s/exit' % phase)
        if r.returncode and phase != 'over garbage':
            rec.violation('command', 'the command fails (%s)' % phase, '', r.stdout + r.stderr)
            return
        if r.returncode:
            continue  # unreadable neighbours may be refused
        for f in sorted(set(before) | set(after) | want):
            rec.count('entries_compared')
            rec.case('command/%s/%s' % (phase, f))
            if f not in want and before.get(f) != after.get(f):
                rec.violation('command', 'the command changed a file it must not touch: ' + f, phase, '%s -> %s' % (before.get(f), after.get(f)))
            if f in want and f not in after:
                rec.violation('command', 'the command did not write ' + f, phase)
        got = [open(os.path.join(root, f), errors='replace').read() for f in sorted(want)]
        if first is None:
            first = got
            r, res = work.call_vgen([src, os.path.join(repo, 'benchmark', 'data_json.go')])
            api = [open(os.path.join(root, f), errors='replace').read() for f in sorted(want)]
            rec.case('command/api')
            if api != got:
                rec.violation('command', 'the command does not write what the generator writes', '', first_diff(''.join(api), ''.join(got)))
            r = work.run(['go', 'build', './...'], os.path.join(repo, 'benchmark'))
            rec.case('command/compiles')
            if r.returncode:
                rec.violation('command', 'what the command writes does not compile', '', r.stderr)
        elif got != first:
            rec.violation('command', 'the output of the command differs (%s)' % phase, '', first_diff(''.join(first), ''.join(got)))
        rec.count('command_runs')
    shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------------------ file effects
BAD_INPUTS = {
    'syntax': 'package bad\n\n//json:x\ntype T struct {\n\tA int `json:"a"`\n',
    'notgo': 'this is not go at all {{{',
    'empty': '',
    'untagged': 'package bad\n\n//json:x\ntype T struct {\n\tA int\n}\n',
    'iface': 'package bad\n\n//json:x\ntype T interface{ M() }\n',
    'chan': 'package bad\n\n//json:x\ntype T struct {\n\tA chan int `json:"a"`\n}\n',
    'func': 'package bad\n\n//json:x\ntype T struct {\n\tA func() `json:"a"`\n}\n',
    'second': 'package bad\n\n//json:x\ntype Good struct {\n\tA int `json:"a"`\n}\n\n//json:x\ntype T struct {\n\tA []interface{} `json:"a"`\n}\n',
    'noinline': 'package bad\n\n//json:x\ntype T struct {\n\tNowhere `json:",inline"`\n}\n',
}


def mon_files(work, rec, pkgs, gofmt=True):
    base = os.path.join(work.dir, 'files')
    os.makedirs(base, exist_ok=True)

    def one(pkg):
        root = os.path.join(base, pkg['name'])
        mod = os.path.join(root, 'mod')
        cwd = os.path.join(root, 'cwd')
        tmp = os.path.join(root, 'tmp')
        home = os.path.join(root, 'home')
        for d in (cwd, tmp, home):
            os.makedirs(d)
        work.write_pkg(pkg, mod)
        # bystanders
        open(os.path.join(mod, 'notes.txt'), 'w').write('notes')
        open(os.path.join(mod, 'other.gen.go.bak'), 'w').write('backup')
        os.makedirs(os.path.join(mod, 'zzdata'))
        open(os.path.join(mod, 'zzdata', UTILS), 'w').write('package zzdata\n')
        os.chmod(os.path.join(mod, pkg['gen'][-1]), 0o640)
        os.symlink('notes.txt', os.path.join(mod, 'link.txt'))
        env = dict(work.env, TMPDIR=tmp, HOME=home)
        import json
        fresh = {}
        for phase in ('first', 'again', 'stale', 'other', 'single'):
            if phase in ('stale', 'other'):
                # what lies in place of the outputs must not matter
                for f in sources(mod, pkg):
                    p = os.path.join(mod, f)
                    srcpkg = re.search(r'^package (\w+)', pkg['files'][pkg['gen'][0]], re.M).group(1)
                    text = {'stale': HEADER + '\npackage %s\n\nfunc staleThing() {}\n' % srcpkg, 'other': 'package other\n' + '// padding\n' * 4000}[phase]
                    open(p, 'w').write(text)
                    os.chmod(p, 0o600)
            before = snapshot(root)
            if phase == 'single':
                # every file alone: only its own output and the helper beside it may change
                gens = pkg['gen']
            else:
                gens = [None]
            for g in gens:
                sub = pkg if g is None else dict(pkg, gen=[g])
                if g is not None:
                    p = os.path.join(mod, out_name(g))
                    open(p, 'ab').write(b'// dirty\n')
                    before = snapshot(root)
                r = work.run([work.vgen] + args_for(sub, mod), cwd, 120, env)
                res = [json.loads(x) for x in r.stdout.split('\n') if x.startswith('{')]
                if not ok(res, sub):
                    if phase == 'first':
                        return False  # the compile monitor's business
                    rec.violation(pkg['name'], 'the generator fails when outputs are already in place (%s)' % phase, '', why(r, res))
                    return False
                after = snapshot(root)
                allowed = set()
                for x in sub['gen']:
                    allowed.add('mod/' + out_name(x))
                    allowed.add(os.path.normpath(os.path.join('mod', os.path.dirname(x), UTILS)))
                for f in sorted(set(before) | set(after)):
                    rec.count('entries_compared')
                    if before.get(f) == after.get(f):
                        continue
                    rec.case('%s/%s/%s' % (pkg['name'], phase, f))
                    if f not in allowed:
                        rec.violation(pkg['name'], 'the generator changed a file it must not touch: ' + f,
                                      ' '.join(args_for(sub, mod)), '%s -> %s' % (before.get(f), after.get(f)))
                for f in allowed:
                    if f not in after:
                        rec.violation(pkg['name'], 'missing output ' + f)
                now = sources(mod, pkg)
                if not fresh:
                    fresh = now
                for f in now:
                    rec.case('%s/%s/content/%s' % (pkg['name'], phase, f))
                    if now[f] != fresh[f]:
                        rec.violation(pkg['name'], '%s was not replaced by a run over other content (%s)' % (f, phase), '',
                                      first_diff((fresh[f] or b'').decode(errors='replace'), (now[f] or b'').decode(errors='replace')))
        for g in pkg['gen']:
            srcpkg = re.search(r'^package (\w+)', pkg['files'][g], re.M).group(1)
            for f in (out_name(g), os.path.join(os.path.dirname(g), UTILS)):
                text = open(os.path.join(mod, f), encoding='utf-8', errors='replace').read()
                rec.case('%s/header/%s' % (pkg['name'], f))
                m = re.search(r'^package (\w+)', text, re.M)
                if not m or m.group(1) != srcpkg:
                    rec.violation(pkg['name'], 'package clause of %s is not that of the source' % f, '', text[:200])
                if f.endswith('.gen.go'):
                    lines = text.split('\n')
                    if not lines or lines[0] != HEADER:
                        rec.violation(pkg['name'], 'no generated-code header in ' + f, '', text[:200])
            rec.count('headers')
        if gofmt:
            outs = [os.path.join(mod, out_name(g)) for g in pkg['gen']]
            r = work.run(['gofmt', '-l'] + outs, mod)
            rec.count('gofmt_files', len(outs))
            rec.case(pkg['name'] + '/gofmt')
            if r.returncode or r.stdout.strip():
                rec.violation(pkg['name'], 'output is not gofmt-formatted Go', '', (r.stdout + r.stderr)[:600])
        return True

    with cf.ThreadPoolExecutor(8) as ex:
        for pkg, good in zip(pkgs, ex.map(one, pkgs)):
            if good:
                rec.count('packages')
                rec.sample('%s: only %s and %s changed' % (pkg['name'], ', '.join(out_name(g) for g in pkg['gen']), UTILS))
    # output into another directory
    root = os.path.join(base, 'otherdir')
    for k, (src, out) in enumerate([('a/src.go', 'b/out.go'), ('a/b/src.go', 'a/out.go'), ('src.go', 'x/y/out.go')]):
        mod = os.path.join(root, str(k))
        body = 'package shared\n\n//json:strict\ntype T struct {\n\tA int `json:"a"`\n\tB []string `json:"b,omitempty"`\n}\n'
        work.write_pkg({'files': {src: body}, 'mod': 'other/mod'}, mod)
        os.makedirs(os.path.dirname(os.path.join(mod, out)), exist_ok=True)
        before = snapshot(mod)
        r, res = work.call_vgen([os.path.join(mod, src), os.path.join(mod, out)])
        after = snapshot(mod)
        want = {out, os.path.normpath(os.path.join(os.path.dirname(out), UTILS))}
        ch = {f for f in set(before) | set(after) if before.get(f) != after.get(f)}
        rec.case('otherdir/%d' % k)
        if not res or not res[0]['ok'] or ch != want:
            rec.violation('otherdir', 'generating %s into %s touched %s' % (src, out, sorted(ch)), body, why(r, res))
    # a refused input leaves everything as it was
    for name, src in BAD_INPUTS.items():
        mod = os.path.join(base, 'bad_' + name)
        work.write_pkg({'files': {'in.go': src, 'out/keep.go': 'package keep\n'}, 'mod': 'bad/mod'}, mod)
        for prior in (None, 'package bad\n\n// earlier output\n'):
            o = os.path.join(mod, 'in.gen.go')
            if prior:
                open(o, 'w').write(prior)
            before = snapshot(mod)
            r, res = work.call_vgen([os.path.join(mod, 'in.go'), o])
            after = snapshot(mod)
            rec.case('bad/%s/%s' % (name, bool(prior)))
            rec.count('refused_inputs')
            if res and res[0]['ok']:
                rec.violation('bad_' + name, 'the generator accepts an input it must refuse', src)
            elif before != after:
                ch = sorted(f for f in set(before) | set(after) if before.get(f) != after.get(f))
                rec.violation('bad_' + name, 'a refused input changed files: ' + ', '.join(ch), src, why(r, res))
    rec.sample('refused inputs: ' + ', '.join(BAD_INPUTS))
    shutil.rmtree(base, ignore_errors=True)


# ---------------------------------------------------------------- unsupported
UNSUP_SHAPES = [
    'rune', 'uintptr', 'complex64', 'complex128', 'time.Duration', 'interface{}', 'any', 'struct{ X int `json:"x"` }', '*[]int', '*[3]int',
    'map[int]string', 'map[string][]int', 'map[string]map[string]int', '[]map[string]int', '[2][2]int',
    '*map[string]int', '[]uuid.UUID', '[]*uuid.UUID', '[2]uuid.UUID', '**int', '[]*[]int', 'chan int', 'func()', 'error', '[]interface{}',
    'map[string]interface{}', '[][][]int', '[][][]string', '[3][]int', '[][3]int', 'map[string][2]int',
    'map[string]*[]int', '[]time.Duration', 'map[bool]int', 'map[St]int', '[]error', '[0]int', '[]struct{}', '*interface{}',
    'map[string]any', 'map[string]uuid.UUID', 'map[string]time.Time', '*time.Duration', '[][]byte', '[]*[]byte', 'map[string][]byte',
    '*[]byte', '**string', '**bool', '**float64', '[][]*string', '*St', '**St', '[][][]St', '[]rune', '[4]rune', 'map[uuid.UUID]int',
    'map[time.Time]int', '[]*time.Time', '[][]*time.Time', '[4]*int', '[2]*St', '[2]St', '[2]*time.Time', 'map[float64]int', 'map[interface{}]int',
    '[]chan int', '[]func()', 'map[string]func()', 'map[string]chan int', '*chan int', '***int', '[]**int', 'map[string]**int',
    'map[string]struct{}', 'map[TrS]St', 'map[UnS]*St', 'map[TrI]int', 'map[UnI]string', 'struct{}', '*struct{ Y string `json:"y"` }', '[]St', 'NMp',
    '*NMp', '[]NMp', 'map[string]NMp', 'map[string]NSl', '*NSl', '[]*NSl', 'NBy', '[]NBy', 'map[string]NBy', '*NBy', '[2]NBy', '[]uint8', '[]int8', '[4]byte', '[4]uint8',
    'unsafe.Pointer', '[]error', '(int)', '*(int)', '[](*int)', '<-chan int',
]
UNSUP_WRAP = {
    'field': '''
//vt:unsup|%(f)s
//json:x
type U struct {
	A int `json:"a"`
	F %(s)s `json:"f"`
	B string `json:"b"`
}
''',
    'omit': '''
//vt:unsup|%(f)s
//json:strict
type U struct {
	A int `json:"a"`
	F %(s)s `json:"f,omitempty"`
	B string `json:"b"`
}
''',
    'req': '''
//vt:unsup|%(f)s
//json:x
type U struct {
	F %(s)s `json:"f,required"`
	B string `json:"b"`
}
''',
    'top': '''
//vt:unsup|%(f)s
//json:x
type U %(s)s
''',
}
UNSUP_WRAP['enc'] = '''
//vt:unsup|%(f)s
//json:encode
type U struct {
	A int `json:"a"`
	F %(s)s `json:"f"`
	B string `json:"b"`
}
'''
UNSUP_WRAP['dec'] = UNSUP_WRAP['enc'].replace('json:encode', 'json:decode')
UNSUP_WRAP['inl'] = '''
//vt:unsup|%(f)s
//json:x
type In struct {
	F %(s)s `json:"f,omitempty"`
	G int `json:"g"`
}

//vt:unsup|%(f)s
//json:strict
type U struct {
	A int `json:"a"`
	In `json:",inline"`
	B string `json:"b"`
}
'''
# whole declarations the generator cannot give a meaning to
UNSUP_DECL = {
    'no_tag': 'type U struct {\n\tA int `json:"a"`\n\tF int\n}',
    'no_tag_unexported': 'type U struct {\n\tA int `json:"a"`\n\tf int\n}',
    'no_json_tag': 'type U struct {\n\tA int `json:"a"`\n\tF int `yaml:"f"`\n}',
    'plain_embedded': 'type U struct {\n\tIn\n\tZ int `json:"z"`\n}\n\n//json:x\ntype In struct {\n\tA int `json:"a"`\n}',
    'plain_embedded_part': 'type U struct {\n\tIn\n\tZ int `json:"z"`\n}\n\n//json:strict\ntype In struct {\n\tA int `json:"a"`\n}',
    'plain_embedded_strict': '//json:strict\ntype U struct {\n\tIn\n\tZ int `json:"z"`\n}\n\n//json:x\ntype In struct {\n\tA int `json:"a"`\n}',
    'tagged_embedded': 'type U struct {\n\tSt `json:"st"`\n\tA int `json:"a"`\n}',
    'ptr_embedded_inline': 'type U struct {\n\t*St `json:",inline"`\n\tA int `json:"a"`\n}',
    'inline_nonstruct': 'type U struct {\n\tTrI `json:",inline"`\n\tA int `json:"a"`\n}',
    'inline_map': 'type U struct {\n\tNMp `json:",inline"`\n\tA int `json:"a"`\n}',
    'inline_unknown': 'type U struct {\n\tNowhere `json:",inline"`\n\tA int `json:"a"`\n}',
    'interface': 'type U interface{ M() }',
    'func': 'type U func(int) int',
    'chan': 'type U chan int',
    'pointer': 'type U *St',
    'generic': 'type U[T any] struct {\n\tA T `json:"a"`\n}',
    'default_bad_int': 'type U struct {\n\tA int `json:"a" default:"abc"`\n}',
    'default_range': 'type U struct {\n\tA int8 `json:"a" default:"300"`\n}',
    'default_neg': 'type U struct {\n\tA uint `json:"a" default:"-1"`\n}',
    'default_bool': 'type U struct {\n\tA bool `json:"a" default:"maybe"`\n}',
    'default_float': 'type U struct {\n\tA float64 `json:"a" default:"x1"`\n}',
    'dup_type': 'type U struct {\n\tA int `json:"a"`\n}\n\n//json:x\ntype U struct {\n\tB int `json:"b"`\n}',
    'undefined': 'type U struct {\n\tA Undefined `json:"a"`\n}',
    'undefined_pkg': 'type U struct {\n\tA nowhere.Type `json:"a"`\n}',
    'self_array': 'type U [2]U',
    'alias_struct': 'type U = struct {\n\tA int `json:"a"`\n}',
    'two_names': 'type U struct {\n\tA, B int `json:"a"`\n}',
    'ptr_decl_top': 'type UP *int\n\n//json:x\ntype U []UP',
    'ptr_decl_list': 'type UP *int\n\n//json:x\ntype U struct {\n\tA []UP `json:"a"`\n}',
    'ptr_decl_map': 'type UP *int\n\n//json:x\ntype U struct {\n\tA map[string]UP `json:"a"`\n}',
    'ptr_decl_struct': 'type UP *St\n\n//json:x\ntype U struct {\n\tA UP `json:"a"`\n}',
    'ptr_decl_time': 'type UP *time.Time\n\n//json:x\ntype U struct {\n\tA *UP `json:"a"`\n}',
    'anon_member': 'type U struct {\n\tA struct {\n\t\tX int `json:"x"`\n\t} `json:"a"`\n}',
    'tag_backslash': 'type U struct {\n\tA int `json:"a\\\\b"`\n\tB int `json:"b"`\n}',
    'tag_quote': 'type U struct {\n\tA int `json:"a\\"b"`\n\tB int `json:"b"`\n}',
    'tag_empty': 'type U struct {\n\tA int `json:""`\n\tB int `json:"b"`\n}',
    'tag_string': 'type U struct {\n\tA int `json:"a,string"`\n\tB bool `json:"b,string"`\n}',
    'same_key': 'type U struct {\n\tA int `json:"a"`\n\tB int `json:"a"`\n}',
    'same_key_inline': 'type In struct {\n\tX int `json:"a"`\n}\n\n//json:x\ntype U struct {\n\tIn `json:",inline"`\n\tB int `json:"a"`\n}',
    'ext_type_time': 'type U struct {\n\tA Time `json:"a"`\n\tB []Time `json:"b"`\n}\n\n//json:x\ntype Time struct {\n\tX int `json:"x"`\n}',
    'ext_type_uuid': 'type U struct {\n\tA UUID `json:"a"`\n\tB []UUID `json:"b"`\n}\n\n//json:x\ntype UUID struct {\n\tX int `json:"x"`\n}',
    'byte_and_rune': 'type U struct {\n\tA byte `json:"a"`\n\tB rune `json:"b"`\n\tC []rune `json:"c"`\n}',
    'blank_member': 'type U struct {\n\t_ int `json:"a"`\n\tB int `json:"b"`\n}',
}


def unsup_packages():
    out = []
    n = 0
    for wname, w in UNSUP_WRAP.items():
        for s in UNSUP_SHAPES:
            if wname == 'top' and s.startswith('('):
                continue
            body = corpus.PRELUDE + w % {'s': s, 'f': ('top' if wname == 'top' else '') + (',u8num' if 'uint8' in s else '')}
            p = corpus.mkpkg('u%04d' % n, body, imports=['"unsafe"'] if 'unsafe' in s else [])
            p['shape'] = '%s as %s' % (s, wname)
            out.append(p)
            n += 1
    for k, d in UNSUP_DECL.items():
        p = corpus.mkpkg('d%04d' % n, corpus.PRELUDE + '\n//vt:unsup|' + ('strict\n' if d.startswith('//json:') else 'x\n//json:x\n') + d + '\n')
        p['shape'] = 'declaration ' + k
        out.append(p)
        n += 1
    for k, (imports, d, extra) in UNSUP_PKG.items():
        p = corpus.mkpkg('d%04d' % n, '\n//vt:unsup|x\n' + d + '\n', imports=imports, extra=dict(extra, **{'part/part_nogen.go': UNSUP_PART}))
        if k.startswith('own_'):
            p['files']['types.go'] = p['files']['types.go'].replace('\t"time"\n', '').replace('\t"github.com/google/uuid"\n', '')
        p['shape'] = 'declaration ' + k
        out.append(p)
        n += 1
    return out


# declarations that need packages: name -> (imports, body, other files)
UNSUP_PKG = {
    'aliased_time': (['t "time"'], '//json:x\ntype U struct {\n\tA t.Time `json:"a"`\n\tB *t.Time `json:"b,omitempty"`\n}', {}),
    'aliased_time_duration': (['t "time"'], '//json:x\ntype U struct {\n\tA t.Duration `json:"a"`\n}', {}),
    'aliased_uuid': (['u "github.com/google/uuid"'], '//json:x\ntype U struct {\n\tA u.UUID `json:"a"`\n}', {}),
    'dot_time': (['. "time"'], '//json:x\ntype U struct {\n\tA Time `json:"a"`\n}', {}),
    'dot_part': (['. "@MOD@/part"'], '//json:x\ntype U struct {\n\tA Kind `json:"a"`\n\tB Num `json:"b"`\n}', {}),
    'foreign_ptr_num': (['"@MOD@/part"'], '//json:x\ntype U struct {\n\tA *part.Num `json:"a"`\n}', {}),
    'foreign_list_num': (['"@MOD@/part"'], '//json:x\ntype U struct {\n\tA []part.Num `json:"a"`\n}', {}),
    'foreign_map_num': (['"@MOD@/part"'], '//json:x\ntype U struct {\n\tA map[string]part.Num `json:"a"`\n}', {}),
    'foreign_key': (['"@MOD@/part"'], '//json:x\ntype U struct {\n\tA map[part.Kind]int `json:"a"`\n}', {}),
    'foreign_array_num': (['"@MOD@/part"'], '//json:x\ntype U struct {\n\tA [2]part.Num `json:"a"`\n}', {}),
    'foreign_struct': (['"@MOD@/part"'], '//json:x\ntype U struct {\n\tA part.Plain `json:"a"`\n}', {}),
    'foreign_embedded': (['"@MOD@/part"'], '//json:x\ntype U struct {\n\tpart.Plain\n\tB int `json:"b"`\n}', {}),
    'foreign_ptr_inline': (['"@MOD@/part"'], '//json:x\ntype U struct {\n\t*part.Plain `json:",inline"`\n\tB int `json:"b"`\n}', {}),
    'foreign_num_top': (['"@MOD@/part"'], '//json:x\ntype U part.Num', {}),
    'foreign_kind_top': (['"@MOD@/part"'], '//json:x\ntype U part.Kind', {}),
    'foreign_struct_top': (['"@MOD@/part"'], '//json:x\ntype U part.Plain', {}),
    'foreign_list_top': (['"@MOD@/part"'], '//json:x\ntype U []part.Num', {}),
    'foreign_map_top': (['"@MOD@/part"'], '//json:x\ntype U map[string]part.Kind', {}),
    'foreign_bytes': (['"@MOD@/part"'], '//json:x\ntype U struct {\n\tA part.Raw `json:"a"`\n\tB part.Bool `json:"b"`\n\tC part.Float `json:"c"`\n\tD part.List `json:"d"`\n\tE part.Map `json:"e"`\n}', {}),
    'foreign_alias': (['"@MOD@/part"'], '//json:x\ntype U struct {\n\tA part.Same `json:"a"`\n\tB part.Far `json:"b"`\n}', {}),
    'foreign_time': (['"@MOD@/part"'], '//json:x\ntype U struct {\n\tA part.When `json:"a"`\n}', {}),
    'own_math': (['"@MOD@/math"'], '//json:x\ntype U struct {\n\tA math.Q `json:"a"`\n\tB int8 `json:"b"`\n}', {'math/m_nogen.go': 'package math\n\ntype Q int8\n'}),
    'own_time': (['"@MOD@/time"'], '//json:x\ntype U struct {\n\tA time.Time `json:"a"`\n\tB *time.Time `json:"b,omitempty"`\n}', {'time/m_nogen.go': 'package time\n\ntype Time struct {\n\tH int `json:"h"`\n}\n'}),
    'own_uuid': (['"@MOD@/uuid"'], '//json:x\ntype U struct {\n\tA uuid.UUID `json:"a"`\n}', {'uuid/m_nogen.go': 'package uuid\n\ntype UUID string\n'}),
    'own_v': (['"@MOD@/v"'], '//json:x\ntype U struct {\n\tA []v.Q `json:"a"`\n}', {'v/m_nogen.go': 'package v\n\ntype Q int8\n'}),
}
UNSUP_PART = """package part

import "time"

type Num int16

type Kind string

type Bool bool

type Float float32

type Raw []byte

type List []string

type Map map[string]int

type Plain struct {
	P int    `json:"p"`
	Q string `json:"q,omitempty"`
}

type Same = int16

type Far Num

type When time.Time
"""


def mon_unsupported(work, rec, known_shapes, pkgs, run):
    """a shape is refused by the generator, refused by the compiler, or handled faithfully; run(monitor) -> report"""
    names = {p['name']: p['shape'] for p in pkgs}
    verdicts = {}
    for p in pkgs:
        n = p['name']
        v = 'refused by the generator' if n in work.gen_fail else 'refused by the compiler' if n in work.build_fail else 'accepted'
        verdicts[n] = v
        rec.case(p['shape'])
        rec.count(v)
        if v == 'refused by the generator' and not work.gen_fail[n].strip():
            rec.violation(n, 'refused without a message: ' + p['shape'])
        if 'does not terminate' in work.gen_fail.get(n, ''):
            rec.violation(n, 'the generator does not come to an end: ' + p['shape'], pkg_text(pkgs, n))
    for v in sorted(set(verdicts.values())):
        rec.sample(v + ': ' + '; '.join(names[n] for n in names if verdicts[n] == v)[:380])
    known = {}
    for mon in ('encode', 'decode', 'roundtrip'):
        rep = run(mon)
        if rep is None:
            continue
        rec.counts['evaluations'] += rep['counts'].get('evaluations', 0)
        rec.count('judged.' + mon, rep['counts'].get('evaluations', 0))
        rec.extra += rep['counts'].get('distinct', 0)
        for k, n in (rep['known'] or {}).items():
            known[k] = known.get(k, 0) + n
        for f in rep['finds'] or []:
            if f['kind'] != 'violation':
                continue
            shape = names.get(f['type'].split('.')[0].split('/')[0], f['type'])
            hit = None
            for k in known_shapes:
                if re.fullmatch(k['shape'], shape) and re.search(k['match'], f['what']):
                    hit = k['id']
            if hit:
                known[hit] = known.get(hit, 0) + 1
            else:
                rec.violation(f['type'], '%s (%s): %s' % (shape, mon, f['what']), f.get('input', ''), f.get('got', ''))
    return known
