"""Type-definition packages fed to the generator under test.

Every package is a dict: name, files {relative path: source}, gen [files to run
the generator on, in order], and the declared types are read back from the
sources: a type is part of the corpus when its doc comment has a //json: line;
an optional //vt:class|features|tags line above names its shape class.
"""
import random
import re

W = {  # wrapper mnemonics
    'v': '%s', 'p': '*%s', 's': '[]%s', 'sp': '[]*%s', 'a': '[3]%s', 'ss': '[][]%s', 'ssp': '[][]*%s',
    'm': 'map[string]%s', 'mp': 'map[string]*%s', 'mt': 'map[TrS]%s', 'mu': 'map[UnS]%s', 'pp': '**%s',
}
SCALARS = ['bool', 'string', 'int', 'int8', 'int16', 'int32', 'int64', 'uint', 'uint8', 'uint16', 'uint32', 'uint64',
           'float32', 'float64']
ALLW = ['v', 'p', 's', 'sp', 'a', 'ss', 'ssp', 'm', 'mp', 'mt', 'mu']
# shapes that the generator supports as a struct field (base -> wrappers)
FIELD = {b: list(ALLW) for b in SCALARS}
FIELD.update({
    'byte': ['s', 'a'],
    'time.Time': ['v', 'p', 's', 'a', 'ss'],
    'uuid.UUID': ['v', 'p'],
    'St': ['v', 'p', 's', 'sp', 'ss', 'ssp', 'm', 'mp', 'mt', 'mu'],
    'Ln': ['v', 'p', 's', 'sp', 'ss', 'ssp', 'm', 'mp', 'mt', 'mu'],
    'NSl': ['v', 's', 'a', 'ss'],
    'NMp': ['v', 'ss'],
    'NSS': ['v', 's', 'a', 'ss'],
    'NBy': ['v', 'sp', 'ss', 'ssp'],
    'UnSl': ['v', 's', 'a'],
    'UnMp': ['v'],
})
NAMED = ['TrI', 'TrS', 'TrB', 'TrF', 'TrU8', 'TrI8', 'TrF32', 'TrU64', 'UnI', 'UnS', 'UnB', 'UnF', 'UnI16', 'UnU']
for _b in NAMED:
    FIELD[_b] = list(ALLW)
EXT = ['ext.ES', 'ext.EI', 'ext.EStr', 'ext.ESl', 'ext.EMp', 'ext.EB', 'ext.EF']
for _b in EXT:
    FIELD[_b] = ['v', 'p', 's', 'sp', 'ss', 'ssp', 'm', 'mp', 'mt', 'mu']
# shapes supported as a top level type
TOP = {b: ['v', 's', 'a', 'm', 'mt', 'mu'] for b in SCALARS}
for _b in ('bool', 'int', 'int64', 'uint64', 'float64'):
    TOP[_b] = TOP[_b] + ['mp']
TOP.update({
    'byte': ['s', 'a'], 'time.Time': ['v', 's', 'a'], 'uuid.UUID': ['v'],
    'St': ['v', 's', 'a', 'm', 'mt', 'mu', 'mp'], 'Ln': ['v', 's', 'a', 'm', 'mt', 'mu', 'mp'],
    'NSl': ['v'], 'NSS': ['v'], 'NBy': ['v'],
})
for _b in NAMED:
    TOP[_b] = ['s', 'a', 'm', 'mt', 'mu'] + (['v'] if _b[:2] == 'Tr' else [])
for _b in ('ext.ES', 'ext.EI', 'ext.EStr', 'ext.EB', 'ext.EF'):
    TOP[_b] = ['v', 's', 'a', 'm', 'mt', 'mu', 'mp']
for _b in ('ext.ESl', 'ext.EMp'):
    TOP[_b] = ['v', 'm', 'mt', 'mu', 'mp']

EXT_SRC = '''package %s

//vt:ext.struct
//json:x
type ES struct {
	X int     `json:"x"`
	Y *string `json:"y,omitempty"`
}

//vt:ext.int
//json:x
type EI int64

//vt:ext.string
//json:x
type EStr string

//vt:ext.bool
//json:x
type EB bool

//vt:ext.float
//json:x
type EF float64

//vt:ext.slice
//json:x
type ESl []string

//vt:ext.map
//json:x
type EMp map[string]int
'''

PRELUDE = '''
//vt:prelude.strict
//json:strict
type St struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//vt:prelude.lenient
//json:x
type Ln struct {
	Q string   `json:"q,omitempty"`
	W *int     `json:"w,omitempty"`
	E []string `json:"e,omitempty"`
}

//vt:prelude.int32
//json:x
type TrI int32

//vt:prelude.string
//json:x
type TrS string

//vt:prelude.bool
//json:x
type TrB bool

//vt:prelude.float64
//json:x
type TrF float64

//vt:prelude.uint8
//json:x
type TrU8 uint8

//vt:prelude.int8
//json:x
type TrI8 int8

//vt:prelude.float32
//json:x
type TrF32 float32

//vt:prelude.uint64
//json:x
type TrU64 uint64

//vt:prelude.slice
//json:x
type NSl []string

//vt:prelude.map
//json:x
type NMp map[string]int

//vt:prelude.structs
//json:x
type NSS []St

//vt:prelude.bytes
//json:x
type NBy []byte

type UnI int32
type UnS string
type UnB bool
type UnF float64
type UnI16 int16
type UnU uint
type UnSl []string
type UnMp map[string]int
'''


def header(pkg, mod, imports=()):
    imps = []
    body_imports = {
        'time': '\t"time"', 'uuid': '\t"github.com/google/uuid"', 'ext': '\t"%s/ext"' % mod,
    }
    for i in imports:
        imps.append(body_imports.get(i, '\t' + i))
    s = 'package %s\n' % pkg
    if imps:
        s += '\nimport (\n' + '\n'.join(imps) + '\n)\n'
    return s


def imports_for(text):
    out = []
    if re.search(r'\btime\.(Time|Duration)', text):
        out.append('time')
    if re.search(r'\buuid\.UUID', text):
        out.append('uuid')
    if re.search(r'\bext\.[A-Z]', text):
        out.append('ext')
    return out


def slug(b):
    return re.sub(r'\W', '', b.title() if b.islower() else b)


DEFVAL = {'bool': 'true', 'string': 'def-str', 'float32': '1.5', 'float64': '-2.25'}
for _s in SCALARS:
    DEFVAL.setdefault(_s, '42')
NAMED_UNDER = {'TrI': 'int32', 'TrS': 'string', 'TrB': 'bool', 'TrF': 'float64', 'TrU8': 'uint8', 'TrI8': 'int8',
               'TrF32': 'float32', 'TrU64': 'uint64', 'UnI': 'int32', 'UnS': 'string', 'UnB': 'bool', 'UnF': 'float64',
               'UnI16': 'int16', 'UnU': 'uint'}


def field_types(b, w, wrap=None):
    """struct types that exercise one shape in every position and option"""
    x = (wrap or W[w]) % b
    s = slug(b) + w.upper()
    c = b + '|' + w
    feat = 'u8num' if b == 'uint8' else ''
    out = '''
//vt:%(c)s|plain,%(f)s
//json:x
type P%(s)s struct {
	F1 %(x)s `json:"f1"`
	N  int `json:"n"`
	F2 %(x)s `json:"f2,omitempty"`
	F3 %(x)s `json:"f3"`
}

//vt:%(c)s|omit,%(f)s
//json:x
type O%(s)s struct {
	F1 %(x)s `json:"f1,omitempty"`
	F2 %(x)s `json:"f2,omitempty"`
	S  string `json:"s,omitempty"`
	F3 %(x)s `json:"f3,omitempty"`
}

//vt:%(c)s|required,%(f)s
//json:strict
type R%(s)s struct {
	F %(x)s `json:"f,required"`
	G %(x)s `json:"g"`
}
''' % dict(c=c, s=s, x=x, f=feat)
    u = NAMED_UNDER.get(b, b)
    if w in ('v', 'p') and u in DEFVAL and not (b in NAMED_UNDER and w == 'p'):
        d = DEFVAL[u]
        out += '''
//vt:%(c)s|default,%(f)s
//json:x
type D%(s)s struct {
	F %(x)s `json:"f" default:"%(d)s"`
	G %(x)s `json:"g,omitempty" default:"%(d)s"`
	H %(x)s `json:"h"`
}
''' % dict(c=c, s=s, x=x, d=d, f=feat)
    return out


def top_type(b, w):
    x = W[w] % b
    feat = 'top'
    if b == 'uint8':
        feat += ',u8num'
    if b == 'uuid.UUID':
        feat += ',uuid'
    # a type declared from a strict struct delegates to its decoder
    forced = '|strict' if (b, w) == ('St', 'v') else ''
    return '''
//vt:%s|%s|%s%s
//json:x
type T%s %s
''' % (b, w, feat, forced, slug(b) + w.upper(), x)


def shape_packages():
    """one package per base type"""
    pkgs = []
    for b in FIELD:
        name = 'g' + slug(b).lower()
        body = ''
        for w in FIELD[b]:
            body += field_types(b, w)
        for w in TOP.get(b, []):
            body += top_type(b, w)
        pkgs.append(mkpkg(name, PRELUDE + body))
    return pkgs


def mkpkg(name, body, imports=None, extra=None, gen=None, ints=None):
    mod = 'corp/c/' + name
    imps = imports_for(body) + list(imports or [])
    files = {}
    order = []
    if 'ext' in imps:
        files['ext/ext.go'] = EXT_SRC % 'ext'
        order.append('ext/ext.go')
    for p, s in (extra or {}).items():
        files[p] = s
        if p.endswith('.go') and not p.endswith('_nogen.go'):
            order.append(p)
    imps = [i.replace('@MOD@', mod) for i in imps]
    files['types.go'] = header(name, mod, imps) + body
    order.append('types.go')
    return {'name': name, 'mod': mod, 'files': files, 'gen': gen or order, 'internals': ints or []}


TYPE_RE = re.compile(r'((?:[ \t]*//[^\n]*\n)+)[ \t]*(?:type[ \t]+)?([A-Za-z_]\w*)[ \t]+(?=struct|\[|map|\*|[\w.]+\b)', re.M)


def types_of(pkg):
    out = []
    for path in pkg['gen']:
        src = pkg['files'][path]
        sub = path.rsplit('/', 1)[0] if '/' in path else ''
        for m in TYPE_RE.finditer(src):
            doc, name = m.group(1), m.group(2)
            tags, cls, feat, forced = [], None, '', None
            for line in doc.splitlines():
                t = line.strip().lstrip('/ \t')
                if t.startswith('json:'):
                    tags += [x.strip().lower() for x in t[5:].split(',') if x.strip()]
                if t.startswith('vt:'):
                    parts = t[3:].split('|')
                    # class may itself contain one '|': base|wrap
                    if len(parts) >= 3:
                        cls, feat = parts[0] + '|' + parts[1], parts[2]
                        if len(parts) > 3:
                            forced = parts[3].strip()
                    else:
                        cls = parts[0]
                        if len(parts) > 1:
                            feat = parts[1]
            if forced is not None:
                tags = [x for x in forced.split('+') if x]
            if not tags or name in ('type', 'struct'):
                continue
            out.append({'name': name, 'sub': sub, 'tags': tags, 'class': cls or 'other', 'feat': feat,
                        'decl_tags': tags})
    return out
