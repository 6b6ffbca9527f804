"""Hand written corpus packages: every feature of the generator outside the
regular shape grid (names, sizes, nesting, inlining, tags, imports, ...)."""
import random

from corpus import FIELD, W, NAMED_UNDER, DEFVAL, PRELUDE, SCALARS, mkpkg


def names():
    return mkpkg('names', '''
//vt:names.keys
//json:strict
type Keys struct {
	A  int     `json:"a"`
	AA int     `json:"aa"`
	AB string  `json:"ab,omitempty"`
	AU int     `json:"A"`
	D  string  `json:"with-dash"`
	E  string  `json:"with.dot"`
	F  string  `json:"with space"`
	G  *int    `json:"$dollar,omitempty"`
	H  string  `json:"колонка"`
	I  string  `json:"日本語,omitempty"`
	J  []int   `json:"sl/ash"`
	K  bool    `json:"@type"`
	L  float64 `json:"#"`
	M  string  `json:"0"`
	N  string  `json:"<tag>&"`
	P  string  `json:"a_b"`
	Q  string  `json:"%d%s"`
	R  string  `json:"null"`
	S  string  `json:"true"`
	T  string  `json:"_"`
	U  string  `json:"é"`
}

//vt:names.percent
//json:strict
type Percent struct {
	A int               `json:"100%,required"`
	B *int8             `json:"%s"`
	C []int             `json:"%d of %d"`
	D map[string]uint8  `json:"%w"`
	E []Keys            `json:"%%"`
	F map[string]*Keys  `json:"%v%,omitempty"`
	G [2]float32        `json:"%[1]d"`
	H *Keys             `json:"%q,required"`
	I string            `json:"%x,omitempty"`
	J time.Time         `json:"%T"`
	K uuid.UUID         `json:"%U,omitempty"`
	L []byte            `json:"%+v"`
	M uint16            `json:"%*d,omitempty"`
	N bool              `json:"% d" default:"true"`
}

//vt:names.spaces
//json:strict
type Spaces struct {
	A int     `json:" a"`
	B *int    `json:"a,omitempty"`
	C string  `json:"a "`
	D string  `json:" "`
	E []int   `json:"  b  c "`
	F bool    `json:" n "`
}

//vt:names.govars
//json:strict
type GoVars struct {
	Err    string         `json:"err"`
	S      string         `json:"s"`
	V      []string       `json:"v"`
	O      map[string]int `json:"o"`
	Key    map[string]string `json:"key"`
	Result *string        `json:"result,omitempty"`
	Data   *int           `json:"data,omitempty"`
	L      []int          `json:"l"`
	ListA  []string       `json:"listA"`
	I      int            `json:"i"`
	B      []byte         `json:"b"`
	N      []byte         `json:"n"`
	Buf    []byte         `json:"buf"`
	WantComma bool        `json:"wantComma"`
	CheckFields int       `json:"checkFields"`
	Value  map[string]*int `json:"value"`
	ValRef map[string]*uint16 `json:"valRef"`
	Tmp    []string       `json:"tmp"`
	Filled bool           `json:"filled"`
	Parser string         `json:"parser"`
	Elem   []*string      `json:"elem"`
	NewElem []*int        `json:"newElem"`
}

//vt:names.pairs
//json:strict
type Short struct {
	Ab  string  `json:"ab"`
	Ba  string  `json:"ba"`
	Abc *string `json:"abc,omitempty"`
	Abd *string `json:"abd,omitempty"`
	Aba []int   `json:"aba,omitempty"`
	X   bool    `json:"x,omitempty"`
	Xx  bool    `json:"xx,omitempty"`
	Xxx bool    `json:"xxx,omitempty"`
}

//vt:names.unicode
//json:x
type Тип struct {
	Поле  string   `json:"поле"`
	Ärger *int     `json:"ärger,omitempty"`
	Список []string `json:"список"`
}

//vt:names.underscore
//json:strict
type With_Under struct {
	Field_One int     `json:"field_one"`
	X_        string  `json:"x_,omitempty"`
	F1_2      *string `json:"f1_2,omitempty"`
}

//vt:names.tags
//json:x
type OtherTags struct {
	A int    `yaml:"zzz" json:"a" db:"qq"`
	B string `validate:"required" json:"b,omitempty" xml:"bb"`
	C *bool  `json:"c,omitempty" bson:"cc,omitempty"`
	D int    `default:"7" json:"d"`
	E int    `db:"json:oops" json:"e" default:"9"`
}

//vt:names.values
//json:x
type ManyNames struct {
	Name, Title string
	Inner       int
}
'''.replace('''
//vt:names.values
//json:x
type ManyNames struct {
	Name, Title string
	Inner       int
}
''', ''))


MANYT = ['int', 'string', 'bool', 'float64', '*int', '*string', '[]string', 'map[string]int', 'int64', 'uint32', '*bool',
         '[]int', 'uint8', '[]*int', '*float64', 'time.Time', 'uuid.UUID', 'St', '*Ln', '[]St', 'map[string]*St', 'TrS',
         '[2]int', '[]byte', 'int16']


def many():
    out = ''
    for n, name in ((130, 'Many'), (33, 'Fields33'), (64, 'Fields64'), (65, 'Fields65'), (8, 'Fields8'), (9, 'Fields9')):
        for suffix, tag in (('', 'strict'),) if n > 100 else (('', 'strict'), ('O', 'x')):
            fs = ''
            for i in range(n):
                t = MANYT[i % len(MANYT)] if n != 64 else ('int', 'string', 'bool')[i % 3]
                opt = ',omitempty' if suffix or i % 3 == 1 or t.startswith('*') else ''
                if not suffix and i % 11 == 5 and not t.startswith('*'):
                    opt = ',required'
                fs += '\tF%d %s `json:"f%d%s"`\n' % (i, t, i, opt)
            out += '\n//vt:many.%d%s\n//json:%s\ntype %s%s struct {\n%s}\n' % (n, suffix, tag, name, suffix, fs)
    out += '''
//vt:many.one
//json:strict
type One struct {
	Only string `json:"only"`
}

//vt:many.oneopt
//json:strict
type OneOpt struct {
	Only *string `json:"only,omitempty"`
}

//vt:many.onemap
//json:strict
type OneMap struct {
	Only map[string]string `json:"only"`
}
'''
    return mkpkg('many', PRELUDE + out)


def deep():
    s = '''
//vt:deep.tree
//json:strict
type Tree struct {
	V    int              `json:"v"`
	L    *Tree            `json:"l,omitempty"`
	R    *Tree            `json:"r,omitempty"`
	Kids []Tree           `json:"kids,omitempty"`
	Refs []*Tree          `json:"refs,omitempty"`
	M    map[string]Tree  `json:"m,omitempty"`
	P    map[string]*Tree `json:"p,omitempty"`
}

//vt:deep.mutualA
//json:x
type MutA struct {
	B  *MutB  `json:"b,omitempty"`
	Bs []MutB `json:"bs"`
}

//vt:deep.mutualB
//json:strict
type MutB struct {
	A *MutA  `json:"a,omitempty"`
	N string `json:"n"`
}

//vt:deep.slice
//json:x
type Forest []Leafy

//vt:deep.leafy
//json:strict
type Leafy struct {
	Sub Forest `json:"sub,omitempty"`
	K   string `json:"k"`
}

//vt:deep.map
//json:x
type Dict map[string]Entry

//vt:deep.entry
//json:x
type Entry struct {
	D Dict `json:"d,omitempty"`
	I int  `json:"i"`
}
'''
    n = 9
    for i in range(n):
        tag = 'strict' if i % 2 == 0 else 'x'
        if i == n - 1:
            f = '\tEnd string `json:"end"`\n\tNum int8 `json:"num,omitempty"`\n'
        else:
            kind = ['L%d', '*L%d', '[]L%d', 'map[string]L%d', '[]*L%d', 'map[string]*L%d'][i % 6] % (i + 1)
            f = '\tA int `json:"a"`\n\tN %s `json:"n%s"`\n\tZ string `json:"z"`\n' % (
                kind, ',omitempty' if kind[0] == '*' or i % 2 else '')
        s += '\n//vt:deep.level\n//json:%s\ntype L%d struct {\n%s}\n' % (tag, i, f)
    return mkpkg('deep', s)


def strictmix():
    s = '''
//vt:mix.outerlenient
//json:x
type Lenient struct {
	S  Strict            `json:"s"`
	P  *Strict           `json:"p,omitempty"`
	A  []Strict          `json:"a,omitempty"`
	R  []*Strict         `json:"r,omitempty"`
	M  map[string]Strict `json:"m,omitempty"`
	AA [][]Strict        `json:"aa,omitempty"`
	N  int               `json:"n"`
}

//vt:mix.strict
//json:strict
type Strict struct {
	X int     `json:"x"`
	L *Loose  `json:"l,omitempty"`
	Q []Loose `json:"q,omitempty"`
}

//vt:mix.loose
//json:x
type Loose struct {
	I int      `json:"i"`
	Z *Strict2 `json:"z,omitempty"`
}

//vt:mix.strict2
//json:optional,strict
type Strict2 struct {
	Deep string `json:"deep,required"`
}

//vt:mix.list
//json:strict
type StrictList []Strict

//vt:mix.map
//json:strict
type StrictMap map[string]Loose

//vt:mix|transit||x
//json:strict
type StrictTr Loose

//vt:mix.emptystrict
//json:strict
type EmptyStrict struct {
}

//vt:mix.emptyloose
//json:x
type EmptyLoose struct {
}

//vt:mix.holdempty
//json:x
type HoldEmpty struct {
	A int          `json:"a"`
	E EmptyStrict  `json:"e"`
	L EmptyLoose   `json:"l"`
	P *EmptyStrict `json:"p,omitempty"`
	M []EmptyLoose `json:"m,omitempty"`
	Z int          `json:"z"`
}
'''
    return mkpkg('strictmix', s)


def inline():
    s = '''
//vt:inline.base
//json:strict
type Base struct {
	ID   int    `json:"id"`
	Name string `json:"name,omitempty"`
}

//vt:inline.opt
//json:x
type OptPart struct {
	Note *string  `json:"note,omitempty"`
	Tags []string `json:"tags,omitempty"`
	Num  int      `json:"num,omitempty" default:"5"`
}

//vt:inline.req
//json:x
type ReqPart struct {
	Must string `json:"must,required"`
	Lvl  int8   `json:"lvl"`
}

//vt:inline.front
//json:strict
type Front struct {
	Base `json:",inline"`
	Z    int `json:"z"`
}

//vt:inline.back
//json:strict
type Back struct {
	Z    int `json:"z"`
	Base `json:",inline"`
}

//vt:inline.middle
//json:strict
type Middle struct {
	Y    *string `json:"y,omitempty"`
	Base `json:",inline"`
	Z    int `json:"z"`
}

//vt:inline.only
//json:strict
type Only struct {
	Base `json:",inline"`
}

//vt:inline.multi
//json:strict
type Multi struct {
	Base    `json:",inline"`
	OptPart `json:",inline"`
	ReqPart `json:",inline"`
}

//vt:inline.nested
//json:strict
type Nested struct {
	H     bool `json:"h"`
	Multi `json:",inline"`
}

//vt:inline.lenient
//json:x
type LenientOuter struct {
	Base `json:",inline"`
	W    string `json:"w,omitempty"`
}

//vt:inline.named
//json:strict
type NamedEmb struct {
	Base    `json:"base"`
	OptPart `json:"opt,omitempty"`
	K       int `json:"k"`
}

//vt:inline.slice
//json:x
type Fronts []Front

//vt:inline.holder
//json:strict
type Holder struct {
	F  Front            `json:"f"`
	P  *Multi           `json:"p,omitempty"`
	L  []Nested         `json:"l"`
	M  map[string]Only  `json:"m"`
	MP map[string]*Back `json:"mp,omitempty"`
}

//vt:inline.optonly
//json:x
type OptOnly struct {
	OptPart `json:",inline"`
}

//vt:inline.mixopt
//json:x
type MixOpt struct {
	A       *int `json:"a,omitempty"`
	OptPart `json:",inline"`
	B       *int `json:"b,omitempty"`
}

//vt:inline.untagged
//json:strict
type UntOuter struct {
	Unt `json:",inline"`
	E   int `json:"e"`
}

type Unt struct {
	C string         `json:"c"`
	D map[string]int `json:"d"`
}
'''
    return mkpkg('inline', s)


def inlinefb():
    """inlining that falls back because a field carries the embedded type's name"""
    s = '''
//vt:inlinefb.same
//json:x
type Same struct {
	Same2 `json:",inline"`
}

//vt:inlinefb.same2
//json:x
type Same2 struct {
	Same2 int `json:"same-two"`
}

//vt:inlinefb.opt
//json:x
type FbOpt struct {
	Retry `json:",inline"`
}

//vt:inlinefb.retry
//json:x
type Retry struct {
	Retry int    `json:"retry,omitempty"`
	Why   string `json:"why,omitempty"`
}
'''
    return mkpkg('inlinefb', s)


def extinline():
    extra = {'part/part.go': '''package part

import "time"

type Code string

type Num int32

//vt:extinline.info
//json:x
type Info struct {
	Code Code      `json:"code"`
	When time.Time `json:"when"`
	Num  Num       `json:"num,omitempty"`
}

//vt:extinline.extra
//json:x
type Extra struct {
	List []string       `json:"list"`
	Map  map[string]int `json:"map,omitempty"`
	In   *Info          `json:"in,omitempty"`
}
'''}
    s = '''
//vt:extinline.direct
//json:strict
type Direct struct {
	part.Info `json:",inline"`
}

//vt:extinline.plus
//json:strict
type Plus struct {
	A         int `json:"a"`
	part.Info `json:",inline"`
	B         string `json:"b"`
}

//vt:extinline.named
//json:x
type NamedExt struct {
	part.Info `json:"info"`
	X         int `json:"x"`
}

//vt:extinline.fields
//json:x
type Fields struct {
	I  part.Info             `json:"i"`
	P  *part.Info            `json:"p,omitempty"`
	L  []part.Info           `json:"l"`
	M  map[string]part.Info  `json:"m,omitempty"`
	MP map[string]*part.Extra `json:"mp,omitempty"`
	C  part.Code             `json:"c"`
	Z  int                   `json:"z"`
}
'''
    return mkpkg('extinline', s, imports=['"@MOD@/part"'], extra=extra)


def times():
    lay = [('A', '2006-01-02'), ('B', '15:04:05'), ('C', '2006.01.02 15h04'), ('D', '02/01/2006'),
           ('E', '2006-01-02T15:04:05Z07:00'), ('F', '20060102150405'), ('G', 'Jan _2 2006'), ('H', '2006-01-02 15:04:05.000'),
           ('I', '2006 W Monday')]
    fs = ''.join('\t%s time.Time `json:"%s" layout:"%s"`\n' % (n, n.lower(), l) for n, l in lay)
    fo = ''.join('\t%s *time.Time `json:"%s,omitempty" layout:"%s"`\n' % (n, n.lower(), l) for n, l in lay)
    s = '''
//vt:time.layouts
//json:strict
type Lay struct {
%s}

//vt:time.playouts
//json:strict
type PLay struct {
%s}

//vt:time.omit
//json:x
type OmitTime struct {
	A time.Time  `json:"a,omitempty"`
	B time.Time  `json:"b,omitempty" layout:"2006-01-02"`
	C *time.Time `json:"c,omitempty"`
	D time.Time  `json:"d,required"`
	N int        `json:"n"`
}

//vt:time.coll
//json:x
type TimeColl struct {
	S []time.Time  `json:"s"`
	A [2]time.Time `json:"a"`
	Z string       `json:"z"`
}

//vt:time.top
//json:x
type Stamp time.Time

//vt:time.topslice
//json:x
type Stamps []time.Time

//vt:time.const
//json:x
type ConstLayout struct {
	A time.Time  `json:"a" layout:"time.RFC3339"`
	B time.Time  `json:"b" layout:"time.RFC3339Nano"`
	C *time.Time `json:"c,omitempty" layout:"time.RFC822"`
	D int        `json:"d"`
}
''' % (fs, fo)
    return mkpkg('times', s)


def uuids():
    s = '''
//vt:uuid.mix
//json:strict
type Ids struct {
	A uuid.UUID  `json:"a"`
	B uuid.UUID  `json:"b,omitempty"`
	C uuid.UUID  `json:"c,required"`
	Z int        `json:"z"`
}

//vt:uuid.top|uuid
//json:x
type ID uuid.UUID
'''
    return mkpkg('uuids', s)


def byteses():
    s = '''
//vt:bytes.fields
//json:strict
type Blob struct {
	A []byte  `json:"a"`
	B []byte  `json:"b,omitempty"`
	C [4]byte `json:"c"`
	D [1]byte `json:"d,omitempty"`
	E []byte  `json:"e,required"`
	F [16]byte `json:"f"`
	Z string  `json:"z"`
}

//vt:bytes.top
//json:x
type Raw []byte

//vt:bytes.toparr
//json:x
type Hash [20]byte

//vt:bytes.hold
//json:x
type HoldRaw struct {
	R Raw  `json:"r"`
	O Raw  `json:"o,omitempty"`
	H Hash `json:"h"`
	N int  `json:"n"`
}
'''
    return mkpkg('byteses', s)


def defaults():
    s = '''
type Named string
type NamedI int16
type NamedB bool

//vt:default.strings
//json:x
type DefStr struct {
	A string  `json:"a" default:"plain"`
	B string  `json:"b" default:"with space"`
	C string  `json:"c" default:"Ünïcödé ☃"`
	D string  `json:"d" default:"it's"`
	E string  `json:"e" default:"true"`
	F string  `json:"f" default:"10"`
	G *string `json:"g" default:"ptr"`
	H *string `json:"h,omitempty" default:"{}[]:;%s"`
	I Named   `json:"i" default:"named"`
	J string  `json:"j,required" default:"fallback"`
	K string  `json:"k,omitempty" default:"x"`
}

//vt:default.nums
//json:strict
type DefNum struct {
	A int      `json:"a" default:"-1"`
	B int8     `json:"b" default:"-128"`
	C uint8    `json:"c" default:"255"`
	D int64    `json:"d" default:"9223372036854775807"`
	E uint64   `json:"e" default:"18446744073709551615"`
	F float32  `json:"f" default:"0.25"`
	G float64  `json:"g" default:"-1e10"`
	H *int     `json:"h,omitempty" default:"12"`
	I *uint16  `json:"i,omitempty" default:"65535"`
	J *float64 `json:"j,omitempty" default:"2.5"`
	K NamedI   `json:"k" default:"77"`
	L int      `json:"l,required" default:"3"`
	M int64    `json:"m,omitempty" default:"-9223372036854775808"`
	N *int8    `json:"n,omitempty" default:"-5"`
	O uint     `json:"o" default:"0"`
	P *int64   `json:"p,omitempty" default:"0"`
}

//vt:default.bools
//json:x
type DefBool struct {
	A bool   `json:"a" default:"true"`
	B bool   `json:"b" default:"false"`
	C *bool  `json:"c,omitempty" default:"true"`
	D NamedB `json:"d,omitempty" default:"true"`
	E *bool  `json:"e,omitempty" default:"false"`
}

//vt:default.nested
//json:strict
type DefNest struct {
	S DefStr            `json:"s"`
	P *DefNum           `json:"p,omitempty"`
	L []DefBool         `json:"l,omitempty"`
	M map[string]DefNum `json:"m,omitempty"`
	T string            `json:"t"`
}
'''
    return mkpkg('defaults', s)


def twins():
    """structures whose members share Go and JSON names but not their options"""
    fields = [('V', 'int', ['', 'default:"12"', 'default:"34"', 'default:"-5"']),
              ('S', 'string', ['', 'default:"one"', 'default:"two"', 'default:"six"']),
              ('B', 'bool', ['', 'default:"true"', 'default:"false"', '']),
              ('F', 'float64', ['', 'default:"0.5"', 'default:"1.5"', 'default:"2.5"']),
              ('T', 'time.Time', ['', 'layout:"2006-01-02"', 'layout:"01-02-2006"', 'layout:"02.01.2006"']),
              ('P', '*int', ['', 'default:"12"', 'default:"34"', 'default:"56"']),
              ('D', '*time.Time', ['', 'layout:"15:04:05"', 'layout:"04:05:15"', 'layout:"time.RFC822"']),
              ('L', '[]int', ['', '', '', '']), ('M', 'map[string]int', ['', '', '', '']),
              ('N', 'St', ['', '', '', '']), ('E', 'TrI', ['', 'default:"12"', 'default:"34"', ''])]
    other = {'V': 'string', 'S': 'int', 'L': '[]string', 'M': 'map[string]string', 'N': 'Ln', 'E': 'TrS', 'B': '*bool', 'F': 'float32',
             'T': 'string', 'P': '*string', 'D': '[]time.Time'}
    opts = ['', ',omitempty', ',required', '']

    def struct(name, k, j, swap=False, cls='twin', local=True):
        fs = ''
        for i, (n, t, extra) in enumerate(fields):
            if n in 'EN' and not local:
                continue
            e = extra[k % 4]
            o = opts[(i + j) % 4]
            if swap:
                t, e = other[n], ''
            if swap and n in 'BP':
                o = ',omitempty'
            if t.startswith('*') and not o:
                o = ',omitempty'
            fs += '\t%s %s `json:"%s%s"%s`\n' % (n, t, n.lower(), o, ' ' + e if e else '')
        return '\n//vt:twins.%s\n//json:%s\ntype %s struct {\n%s}\n' % (cls, 'strict' if (k + j) % 2 else 'x', name, fs)

    def part(tag, local=True):
        return ''.join(struct('Tw%s%d%d' % (tag, k, j), k, j, local=local) for k in range(4) for j in range(2)) + struct('Tw%sSwap' % tag, 0, 0, True, local=local)
    # the same names once more, in a second file and in a second package with other options
    second = mkpkg('twins', part('B', False))['files']['types.go']
    third = PRELUDE + ''.join(struct('TwA%d%d' % (k, j), k + 1, j + 2) for k in range(4) for j in range(2))
    third = 'package sub\n\nimport "time"\n' + third
    return mkpkg('twins', PRELUDE + part('A'), extra={'second.go': second, 'sub/third.go': third})


def required():
    s = '''
//vt:required.kinds
//json:strict
type Req struct {
	A string         `json:"a,required"`
	B int            `json:"b,required"`
	C bool           `json:"c,required"`
	D []string       `json:"d,required"`
	E map[string]int `json:"e,required"`
	F *string        `json:"f,required"`
	G St             `json:"g,required"`
	H *Ln            `json:"h,required"`
	I float64        `json:"i,required"`
	J TrS            `json:"j,required"`
	K time.Time      `json:"k,required"`
	L uuid.UUID      `json:"l,required"`
	M []byte         `json:"m,required"`
	N []St           `json:"n,required"`
}

//vt:required.nest
//json:x
type ReqNest struct {
	A  *Req          `json:"a,omitempty"`
	L  []Small       `json:"l"`
	M  map[string]Small `json:"m"`
	S  Small         `json:"s,required"`
}

//vt:required.small
//json:x
type Small struct {
	X int `json:"x,required"`
	Y int `json:"y"`
}
'''
    return mkpkg('required', PRELUDE + s)


def transit():
    s = '''
//vt:transit|struct||strict
//json:x
type T1 St

//vt:transit.slice
//json:x
type T3 NSl

//vt:transit.structs
//json:x
type T5 NSS

//vt:transit.bytes
//json:x
type T6 NBy

//vt:transit.lenient
//json:x
type T9 Ln

'''
    return mkpkg('transit', PRELUDE + s)


def tagctl():
    """which methods exist for which tag; checked through the API surface"""
    s = '''
// DecOnly decodes only.
//
//vt:tag.decode
//json:decode
type DecOnly struct {
	A int `json:"a"`
}

//vt:tag.encode
//json:encode
type EncOnly struct {
	A int `json:"a"`
}

//vt:tag.decodestrict
//json:strict,decode
type DecStrict struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//vt:tag.encodex
//json:optional, encode
type EncX struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//vt:tag.upper
//json:STRICT
type Upper struct {
	A int `json:"a"`
}

// Spaced has text around the tag.
//
//vt:tag.spaced
//json: strict , x
// and more text after it.
type Spaced struct {
	A int `json:"a"`
}

//vt:tag.twolines
//json:x
//json:strict
type TwoLines struct {
	A int `json:"a"`
}

// json:strict
//vt:tag.slashspace
type SlashSpace struct {
	A int `json:"a"`
}

//vt:tag.decslice
//json:decode
type DecSlice []int

//vt:tag.encmap
//json:encode
type EncMap map[string]int

//vt:tag.dectransit
//json:decode
type DecTr string

//vt:tag.enctransit
//json:encode
type EncTr int64

//vt:tag.decbytes
//json:decode
type DecBy []byte

type (
	//vt:tag.grouped
	//json:strict
	G1 struct {
		A int `json:"a"`
		G2 G2 `json:"g2"`
	}
	// G2 is second
	//
	//vt:tag.grouped
	//json:x
	G2 struct {
		B string `json:"b,omitempty"`
	}
	//vt:tag.grouped
	//json:x
	G3 []G2
	//vt:tag.grouped
	//json:x
	G4 map[string]G1
	//vt:tag.grouped
	//json:x
	Gun string
	//vt:tag.grouped
	//json:x
	G5 Gun
)

// Untagged has no json line and gets no methods.
//
//vt:tag|untagged||none
type Untagged struct {
	A int `json:"a"`
}

// NotATag mentions json: in the middle of a sentence.
// The json:strict marker above must be at the start of a line.
//
//vt:tag|notatag||none
type NotATag struct {
	A int `json:"a"`
}
'''
    return mkpkg('tagctl', s)


def inherit():
    s = '''
//vt:inherit.list
//json:strict
type Items []Item

//vt:inherit.item|hidden|strict
//json:-
type ItemMarker struct {
	A int `json:"a"`
}

//vt:inherit|item||strict
type Item struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//vt:inherit.lenientlist
//json:x
type Rows []Row

//vt:inherit|row||x
type Row struct {
	C *int `json:"c,omitempty"`
	D bool `json:"d"`
}

//vt:inherit.hold
//json:x
type HoldItems struct {
	I Items `json:"i"`
	R Rows  `json:"r,omitempty"`
	O Item  `json:"o"`
}

//vt:inherit.twotags
//json:x,strict
type Lines []Line

//vt:inherit|line||x+strict
type Line struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

//vt:inherit.twolines
// Words is described here.
//json:y
//json:strict
type Words []Word

//vt:inherit|word||y+strict
type Word struct {
	A *int   `json:"a,omitempty"`
	B []bool `json:"b"`
}

//vt:inherit.arr
//json:strict
type Pair [2]Cell

//vt:inherit|cell||strict
type Cell struct {
	E int `json:"e"`
}
'''
    s = s.replace('''
//vt:inherit.item|hidden|strict
//json:-
type ItemMarker struct {
	A int `json:"a"`
}
''', '')
    return mkpkg('inherit', s)


def aliases():
    extra = {
        'one/model/model.go': '''package model

//vt:alias.one
//json:x
type Thing struct {
	One int `json:"one"`
}

//vt:alias.onename
//json:x
type Name string
''',
        'two/model/model.go': '''package model

//vt:alias.two
//json:x
type Thing struct {
	Two string `json:"two"`
}

//vt:alias.twocount
//json:x
type Count int64
''',
        'dirname/impl.go': '''package othername

//vt:alias.dirname
//json:x
type Odd struct {
	O bool `json:"o"`
}
''',
    }
    s = '''
//vt:alias.use
//json:strict
type Use struct {
	A first.Thing            `json:"a"`
	B *second.Thing          `json:"b,omitempty"`
	C []first.Thing          `json:"c"`
	D map[string]second.Thing `json:"d,omitempty"`
	E othername.Odd          `json:"e"`
	F first.Name             `json:"f"`
	G *second.Count          `json:"g,omitempty"`
	Z int                    `json:"z"`
}

//vt:alias.list
//json:x
type Firsts []first.Thing

//vt:alias.map
//json:x
type Seconds map[string]second.Thing
'''
    return mkpkg('aliases', s, imports=['first "@MOD@/one/model"', 'second "@MOD@/two/model"', 'othername "@MOD@/dirname"'],
                 extra=extra)


def namesakes():
    """Packages of one name in several directories, packages imported under the name of another, and
    directories called otherwise than their package; structures of each are inlined."""
    def part(k, tag, num, elem):
        return """package %(p)s

//vt:namesakes.info
//json:x
type Info struct {
	A int             `json:"a%(t)s"`
	B string          `json:"b%(o)s"`
	L []Cell          `json:"l"`
	M map[string]Cell `json:"m,omitempty"`
	P *Cell           `json:"p,omitempty"`
	C Cell            `json:"c%(t)s"`
	N Num             `json:"n"`
}

//vt:namesakes.cell
//json:x
type Cell struct {
	V int `json:"v%(t)s"`
}

//vt:namesakes.num
//json:x
type Num %(n)s

//vt:namesakes.list
//json:x
type List []%(e)s
""" % {'p': k, 't': tag, 'o': ',omitempty' if tag else '', 'n': num, 'e': elem}

    extra = {
        'a/part/p.go': part('part', '', 'int8', 'string'),
        'b/part/p.go': part('part', '2', 'uint16', 'int'),
        'c/other/p.go': part('other', '3', 'float64', 'bool'),
        'd/go-odd/p.go': part('odd', '4', 'string', 'float64'),
        'e/other/v2/p.go': part('other', '5', 'bool', 'int8'),
    }
    # tests of the packages have types of the same names
    for f, t in list(extra.items()):
        d, name = f.rsplit('/', 1)[0], t.split(None, 2)[1]
        extra[d + '/ext_test.go'] = """package %s_test

type Info struct {
	A bool `json:"other"`
	B int  `json:"bb"`
}

type Num struct{ X int }

type Cell int

type List map[string]string
""" % name
    plain = """package model

type Code int

type Kind string

type In struct {
	A Code `json:"a"`
	K Kind `json:"k,omitempty"`
}
"""
    twice = """
//vt:namesakes.plain
//json:x
type Uses struct {
	C model.Code  `json:"c"`
	K model.Kind  `json:"k,omitempty"`
	Z int         `json:"z"`
}

//vt:namesakes.plaininline
//json:strict
type Inlines struct {
	Z        int `json:"z"`
	model.In `json:",inline"`
}
"""
    use = """
//vt:namesakes.inline
//json:strict
type A%(k)s struct {
	%(q)s.Info `json:",inline"`
	Z int `json:"z"`
}

//vt:namesakes.inlinelast
//json:x
type L%(k)s struct {
	Z int `json:"z"`
	%(q)s.Info `json:",inline"`
}

//vt:namesakes.use
//json:x
type B%(k)s struct {
	N %(q)s.Num   `json:"n"`
	O *%(q)s.Num  `json:"o,omitempty"`
	I *%(q)s.Info `json:"i,omitempty"`
	L %(q)s.List  `json:"l"`
}
"""
    pk = []
    for name, imports, qs in (
            ('namesakea', ['"@MOD@/a/part"'], ['part']),
            ('namesakeb', ['"@MOD@/b/part"'], ['part']),
            ('namesakec', ['part "@MOD@/c/other"'], ['part']),
            ('namesaked', ['"@MOD@/d/go-odd"'], ['odd']),
            ('namesakee', ['"@MOD@/e/other/v2"', 'part "@MOD@/d/go-odd"'], ['other', 'part']),
            ('namesakef', ['q "@MOD@/a/part"', 'r "@MOD@/b/part"', '"@MOD@/c/other"'], ['q', 'r', 'other'])):
        s = ''.join(use % {'q': q, 'k': 'abc'[i].upper()} for i, q in enumerate(qs))
        used = [f for f in extra if not f.endswith('_test.go') and any('/' + f.rsplit('/', 1)[0] + '"' in i for i in imports)]
        pk.append(mkpkg(name, s, imports=imports, extra=extra, gen=used + ['types.go']))
    # a path that repeats the name of the module
    pk.append(mkpkg('namesakeg', twice, imports=['"@MOD@/web/corp/c/namesakeg/model"'], gen=['types.go'],
                    extra={'web/corp/c/namesakeg/model/m.go': plain, 'web/corp/c/namesakeg/model/a_test.go': plain.replace('package model', 'package model_test').replace('int', 'string'), 'web/model/m.go': plain.replace('int', 'bool').replace('"a"', '"b"')}))
    return pk


def pkgnames():
    """Packages called like local variables, parameters and packages of generated code."""
    used = 'parser result writer data list val obj errors buf elem ok http w'.split()
    idle = ['v', 's', 'err']  # imported for the code of the user only
    extra = {}
    s = ''
    for n in used:
        extra['%s/q.go' % n] = """package %s

//vt:pkgnames.part
//json:x
type Q struct {
	S string `json:"s%s"`
	N int16  `json:"n"`
}
""" % (n, n)
        s += """
//vt:pkgnames.use
//json:strict
type Use%(t)s struct {
	Q %(n)s.Q            `json:"q"`
	P *%(n)s.Q           `json:"p,omitempty"`
	L []%(n)s.Q          `json:"l"`
	M map[string]%(n)s.Q `json:"m,omitempty"`
	B int8               `json:"b"`
	T []string           `json:"t"`
	K map[string]int8    `json:"k"`
}
""" % {'n': n, 't': n.capitalize()}
    for n in idle:
        extra['%s/idle_nogen.go' % n] = 'package %s\n\n// Idle is nothing to the generator.\nfunc Idle() int { return 1 }\n' % n
        s += '\nvar idle%s = %s.Idle()\n' % (n.capitalize(), n)
    # what an inlined structure refers to need not be imported here
    extra['deep/deep.go'] = """package deep

//vt:pkgnames.deep
//json:x
type D struct {
	V int    `json:"v"`
	W string `json:"w"`
}

type N int
"""
    extra['part/part.go'] = """package part

import (
	"time"

	"@MOD@/deep"
)

//vt:pkgnames.far
//json:x
type Far struct {
	D *deep.D           `json:"d,omitempty"`
	L []deep.D          `json:"l"`
	M map[string]deep.D `json:"m"`
	N deep.N            `json:"n"`
	T *time.Time        `json:"t"`
}

//vt:pkgnames.chain
//json:x
type Chain struct {
	deep.D `json:",inline"`
	Q int  `json:"q"`
}
""".replace('@MOD@', 'corp/c/pkgnames')
    s += """
//vt:pkgnames.inlinefar
//json:strict
type InlineFar struct {
	part.Far `json:",inline"`
	Z        int `json:"z"`
}

//vt:pkgnames.inlinechain
//json:x
type InlineChain struct {
	Z          int `json:"z"`
	part.Chain `json:",inline"`
}
"""
    return mkpkg('pkgnames', s, imports=['"@MOD@/%s"' % n for n in used + idle + ['part']], extra=extra)


def lookalikes():
    """Types, members and JSON names of one file that differ by case, by a prefix or by a suffix only."""
    s = ''
    names = ['Item', 'item', 'ITEM', 'iTem', 'Items', 'Item1', 'Item_', 'Item_s', 'MyItem', 'Itém', 'ItemItem', 'ItemX']
    kinds = ['int', 'string', '[]Item', 'map[string]item', 'bool', 'float64', '*ITEM', '[]*Items', '[]string', 'int8', '*string', 'time.Time']
    for k, n in enumerate(names):
        s += """
//vt:lookalikes.struct
//json:%s
type %s struct {
	A    %-12s `json:"a%s"`
	AA   string       `json:"%s"`
	Aa   int          `json:"%s"`
	A_   bool         `json:"A_,omitempty"`
	Item *int         `json:"item,omitempty"`
	ITEM []int        `json:"ITEM,omitempty"`
}
""" % (['strict', 'x', 'x'][k % 3], n, kinds[k], ['', ',omitempty'][k % 2], ['aA', 'A', 'Aa'][k % 3], ['Aa', 'aa', 'aA'][k % 3])
    for k, (n, t) in enumerate([('List', '[]Item'), ('list', '[]item'), ('LIST', '[]ITEM'), ('Lists', '[]string'), ('Map', 'map[string]Item'), ('map_', 'map[string]item'),
                                ('MAP', 'map[string]string'), ('Num', 'int8'), ('num', 'uint16'), ('NUM', 'float64'), ('Str', 'string'), ('str', 'bool'), ('Raw', '[]byte'), ('raw', '[]int8')]):
        s += """
//vt:lookalikes.top
//json:x
type %s %s
""" % (n, t)
    s += """
//vt:lookalikes.use
//json:strict
type Uses struct {
	A Item            `json:"a"`
	B item            `json:"b"`
	C *ITEM           `json:"c,omitempty"`
	D []iTem          `json:"d"`
	E map[string]Items `json:"e"`
	F List            `json:"f"`
	G list            `json:"g"`
	H LIST            `json:"h"`
	I Num             `json:"i"`
	J num             `json:"j"`
	K NUM             `json:"k"`
	L Raw             `json:"l"`
	M raw             `json:"m"`
	N Itém            `json:"n"`
	O ItemItem        `json:"o"`
	P str             `json:"p"`
	Q Str             `json:"q"`
}
"""
    return mkpkg('lookalikes', s)


def samename():
    """Two packages whose types have the same names and differ in everything else."""
    extra = {
        'one/one.go': """package one

//vt:samename.onebase
//json:x
type Base struct {
	One int    `json:"one"`
	Tag string `json:"tag,omitempty"`
}

//vt:samename.onesize
//json:x
type Size uint8

//vt:samename.onelist
//json:x
type List []string

//vt:samename.onekind
//json:x
type Kind string

type Raw struct {
	N int8   `json:"n"`
	M string `json:"m,omitempty"`
}
""",
        'two/two.go': """package two

//vt:samename.twobase
//json:x
type Base struct {
	Two  string `json:"two"`
	Flag bool   `json:"flag,omitempty"`
	Deep *int   `json:"deep,omitempty"`
}

//vt:samename.twosize
//json:x
type Size uint16

//vt:samename.twolist
//json:x
type List map[string]int

//vt:samename.twokind
//json:x
type Kind struct {
	K float64 `json:"k"`
}

type Raw struct {
	N int8   `json:"num"`
	M string `json:"n"`
}
""",
    }
    s = """
//vt:samename.inline
//json:strict
type Both struct {
	one.Base `json:",inline"`
	Z        int `json:"z"`
}

//vt:samename.inlinetwo
//json:strict
type Other struct {
	two.Base `json:",inline"`
	Z        int `json:"z"`
}

//vt:samename.base
//json:x
type Base struct {
	Own int `json:"own"`
}

//vt:samename.inlineown
//json:strict
type Own struct {
	Base `json:",inline"`
	Z    int `json:"z"`
}

//vt:samename.size
//json:x
type Size int32

//vt:samename.inlineraw
//json:x
type RawOne struct {
	A       int `json:"a"`
	one.Raw `json:",inline"`
}

//vt:samename.inlinerawtwo
//json:x
type RawTwo struct {
	two.Raw `json:",inline"`
	A       int `json:"a"`
}

//vt:samename.sizes
//json:strict
type Sizes struct {
	A one.Size  `json:"a"`
	B two.Size  `json:"b"`
	C Size      `json:"c"`
	D *one.Size `json:"d,omitempty"`
	E *two.Size `json:"e,omitempty"`
	F *Size     `json:"f,omitempty"`
}

//vt:samename.sizesback
//json:strict
type SizesBack struct {
	C Size     `json:"c"`
	B two.Size `json:"b"`
	A one.Size `json:"a"`
}

//vt:samename.fields
//json:x
type Mixed struct {
	A one.List           `json:"a"`
	B two.List           `json:"b"`
	C one.Kind           `json:"c"`
	D two.Kind           `json:"d"`
	E *one.Kind          `json:"e,omitempty"`
	F *two.Kind          `json:"f,omitempty"`
	G []one.Base         `json:"g"`
	H []two.Base         `json:"h,omitempty"`
	I map[string]two.Base `json:"i,omitempty"`
	J map[string]one.Base `json:"j"`
	K Base               `json:"k"`
}

//vt:samename.listone
//json:x
type Ones []one.Base

//vt:samename.listtwo
//json:x
type Twos []two.Base

//vt:samename.mapsone
//json:x
type OneSizes map[string]one.Size

//vt:samename.mapstwo
//json:x
type TwoSizes map[string]two.Size
"""
    return mkpkg('samename', s, imports=['"@MOD@/one"', '"@MOD@/two"'], extra=extra)


def multifile():
    extra = {'shared.go': '''package multifile

//vt:multi.shared
//json:strict
type Shared struct {
	A int     `json:"a"`
	B *string `json:"b,omitempty"`
}

//vt:multi.list
//json:x
type SharedList []Shared
''', 'third.go': '''package multifile

//vt:multi.third
//json:x
type Third struct {
	P []int          `json:"p,omitempty"`
	M map[string]int `json:"m,omitempty"`
	Z int            `json:"z"`
}

//vt:multi.thirdlist
//json:strict
type Thirds []Third
'''}
    s = '''
//vt:multi.main
//json:x
type Main struct {
	S []string  `json:"s"`
	Q string    `json:"q"`
	L *MainPart `json:"l,omitempty"`
}

//vt:multi.mainpart
//json:strict
type MainPart struct {
	A int `json:"a"`
}
'''
    return mkpkg('multifile', s, extra=extra)



HAND = '''package hand

import (
	"corp/hx"

	"github.com/mailru/easyjson/jwriter"
	"github.com/valyala/fastjson"
)

// H is written by hand: a text whose reading and writing can fail.
type H struct{ S string }

func (h *H) FillFromJSON(v *fastjson.Value) error  { return hx.HandFill(&h.S, v) }
func (h *H) UnmarshalJSON(b []byte) error          { return hx.HandUnmarshal(&h.S, b) }
func (h *H) MarshalTo(w hx.HandWriter) error       { return hx.HandTo(h.S, w) }
func (h *H) MarshalJSON() ([]byte, error)          { return hx.HandMarshal(h.S) }
func (h H) IsZero() bool                           { return h.S == "" }
func (h *H) Reset()                                { h.S = "" }

var _ = jwriter.Writer{}
'''


def faulty():
    """structs around a type of another package whose methods are hand written"""
    s = '''
//vt:fault.v
//json:none
type FV struct {
	A int    `json:"a"`
	F hand.H `json:"f"`
	B string `json:"b"`
	G hand.H `json:"g,omitempty"`
}

//vt:fault.p
//json:none
type FP struct {
	F *hand.H `json:"f"`
	G *hand.H `json:"g,omitempty"`
	R *hand.H `json:"r,required"`
}

//vt:fault.s
//json:none
type FS struct {
	F []hand.H  `json:"f"`
	G []*hand.H `json:"g,omitempty"`
}

//vt:fault.m
//json:none
type FM struct {
	F map[string]hand.H  `json:"f"`
	G map[string]*hand.H `json:"g,omitempty"`
}

//vt:fault.pct
//json:none
type FPct struct {
	A hand.H            `json:"100%"`
	B *hand.H           `json:"%s"`
	C []hand.H          `json:"%d of %d"`
	D map[string]hand.H `json:"%w"`
	E []*hand.H         `json:"%%"`
	F map[string]*hand.H `json:"%v%"`
	H *hand.H           `json:"%q"`
}

//vt:fault.ss
//json:none
type FSS struct {
	F [][]hand.H `json:"f"`
	Z int        `json:"z"`
}

//vt:fault.tops
//json:none
type FTS []hand.H

//vt:fault.topm
//json:none
type FTM map[string]hand.H

//vt:fault.custom|x||custom
//json:custom
type HC struct {
	S string `json:"s"`
}

//vt:fault.cust
//json:none
type FC struct {
	F HC            `json:"f"`
	P *HC           `json:"p,omitempty"`
	S []HC          `json:"s"`
	M map[string]HC `json:"m"`
	N int           `json:"n"`
}

//vt:fault.custtops
//json:none
type FCS []HC

//vt:fault.custtopm
//json:none
type FCM map[string]HC

//vt:fault.deep
//json:none
type FDeep struct {
	V  FV            `json:"v"`
	P  *FP           `json:"p,omitempty"`
	S  []FV          `json:"s"`
	SP []*FS         `json:"sp,omitempty"`
	M  map[string]FV `json:"m"`
	T  FTS           `json:"t"`
	U  FTM           `json:"u"`
	SS [][]FV        `json:"ss"`
}

//vt:fault.inline
//json:none
type FInl struct {
	X  int `json:"x"`
	FV `json:",inline"`
	Y  hand.H `json:"y"`
}
'''
    return mkpkg('faulty', s, imports=['"@MOD@/hand"'], extra={'hand/hand_nogen.go': HAND, 'cust_nogen.go': HAND.replace('package hand', 'package faulty').replace('type H struct{ S string }', '').replace('// H is written by hand: a text whose reading and writing can fail.\n', '').replace('h *H)', 'h *HC)').replace('h H)', 'h HC)')})


OPTS_ALL = ['', '', ',omitempty', ',omitempty', ',required']
SHAPES = [(b, w) for b in FIELD for w in FIELD[b] if b != 'uint8' and not (b == 'uuid.UUID' and w == 'p')]


def combo(seed, n_types=6, fields=(3, 12), name=None):
    """random structs mixing any shapes, options, defaults, nesting and inlining"""
    r = random.Random(seed)
    name = name or 'combo%d' % seed
    body = ''
    prev = []
    feats = {}
    tags = {}
    for i in range(n_types):
        tn = 'C%d' % i
        kind = r.random()
        tag = r.choice(['strict', 'x', 'optional', 'x,strict'])
        if kind < 0.12 and prev:
            w = r.choice(['s', 'm', 's', 'mt', 'a'])
            body += '\n//vt:combo.top\n//json:%s\ntype %s %s\n' % (tag, tn, W[w] % r.choice(prev))
            continue
        if kind < 0.2 and prev:
            b = r.choice(prev)
            body += '\n//vt:combo|transit||%s\n//json:%s\ntype %s %s\n' % (tags[b], tag, tn, b)
            continue
        fs = ''
        inl = None
        cand = [p for p in prev if feats.get(p)]
        if cand and r.random() < 0.3:
            inl = r.choice(cand)
        n = r.randint(*fields)
        at = r.randrange(n)
        for k in range(n):
            if inl and k == at:
                fs += '\t%s `json:",inline"`\n' % inl
            if prev and r.random() < 0.3:
                b = r.choice(prev)
                w = r.choice(['v', 'p', 's', 'sp', 'm', 'mp', 'ss'])
                d = None
            else:
                b, w = r.choice(SHAPES)
                u = NAMED_UNDER.get(b, b)
                d = DEFVAL.get(u) if w in ('v', 'p') and not (b in NAMED_UNDER and w == 'p') else None
            opt = r.choice(OPTS_ALL)
            t = W[w] % b
            key = '%s%d' % (r.choice(['k', 'key_', 'K', 'x-', 'ключ', 'f.']), 100 * i + k)
            extra = ' default:"%s"' % d if d and r.random() < 0.3 else ''
            fs += '\tF%d_%d %s `json:"%s%s"%s`\n' % (i, k, t, key, opt, extra)
        body += '\n//vt:combo.struct\n//json:%s\ntype %s struct {\n%s}\n' % (tag, tn, fs)
        feats[tn] = not inl
        tags[tn] = 'strict' if 'strict' in tag else 'x'
        prev.append(tn)
    return mkpkg(name, PRELUDE + body)


def refs():
    """members of declared pointer types"""
    under = {'PI': 'int', 'PI8': 'int8', 'PU32': 'uint32', 'PS': 'string', 'PB': 'bool', 'PF': 'float64', 'PF32': 'float32', 'PT': 'time.Time'}
    s = PRELUDE + ''.join('\ntype %s *%s\n' % kv for kv in under.items())
    for n, u in under.items():
        d = DEFVAL.get(u)
        if d is None and u != 'time.Time':
            d = '7'
        for opt, sfx in (('', 'V'), (',omitempty', 'O'), (',required', 'R')):
            for tag in ('x', 'strict'):
                s += '\n//vt:refs|%s\n//json:%s\ntype %s%s%s struct {\n\tA int `json:"a"`\n\tF %s `json:"f%s"`\n\tZ string `json:"z"`\n}\n' % (
                    n, tag, n, sfx, tag.title(), n, opt)
        if d is not None:
            for opt, sfx in (('', 'DV'), (',omitempty', 'DO'), (',required', 'DR')):
                s += '\n//vt:refs|%s\n//json:x\ntype %s%s struct {\n\tA int `json:"a"`\n\tF %s `json:"f%s" default:"%s"`\n}\n' % (
                    n, n, sfx, n, opt, d)
            s += '\n//vt:refs|%s\n//json:x\ntype %sP struct {\n\tF *%s `json:"f"`\n\tG *%s `json:"g,omitempty"`\n}\n' % (n, n, n, n)
    s += '''
//vt:refs|mix
//json:x
type PMix struct {
	A PI  `json:"a,omitempty"`
	B PS  `json:"b"`
	C PB  `json:"c,omitempty"`
	S *St `json:"s,omitempty"`
	D PF  `json:"d" default:"2.5"`
	E int `json:"e"`
}

//vt:refs|nest
//json:x
type PNest struct {
	L []PMix          `json:"l,omitempty"`
	M map[string]PMix `json:"m,omitempty"`
	P *PMix           `json:"p,omitempty"`
}
'''
    return mkpkg('refs', s)


def odd():
    """options in combinations that ordinary structures do not have"""
    s = PRELUDE + '''
//vt:odd.layout
//json:x
type LayP struct {
	A *time.Time `json:"a" layout:"2006-01-02"`
	B int        `json:"b"`
}

//vt:odd.layout
//json:strict
type LayReq struct {
	A *time.Time `json:"a,required" layout:"2006-01-02"`
	B time.Time  `json:"b,required" layout:"15:04"`
	C *time.Time `json:"c,omitempty" layout:"Jan 2 2006"`
}

//vt:odd.layoutlist
//json:x
type LayL struct {
	A []time.Time  `json:"a" layout:"2006-01-02"`
	B [2]time.Time `json:"b" layout:"2006-01-02"`
	C int          `json:"c"`
}

//vt:odd.dash
//json:strict
type Dash struct {
	A int            `json:"-"`
	C map[string]int `json:"-"`
	B int            `json:"b"`
}

//vt:odd.dashfirst
//json:x
type DashL struct {
	B int `json:"b,omitempty"`
	C int `json:"c,omitempty"`
	A int `json:"-"`
}

//vt:odd.dashcomma
//json:strict
type DashC struct {
	A int `json:"-,"`
	B int `json:"b"`
}

//vt:odd.default
//json:x
type DefPR struct {
	A *int     `json:"a,required" default:"3"`
	B *string  `json:"b,required" default:"x"`
	C *bool    `json:"c,required" default:"true"`
	D *float32 `json:"d,omitempty" default:"1.5"`
	E *uint8   `json:"e,omitempty,required" default:"255"`
	F *int64   `json:"f" default:"-9223372036854775808"`
	G uint64   `json:"g" default:"18446744073709551615"`
	H int8     `json:"h" default:"-128"`
	I string   `json:"i" default:""`
	J bool     `json:"j" default:"false"`
	K float64  `json:"k" default:"1e300"`
	L int      `json:"l" default:"0x1F"`
}

//vt:odd.default
//json:x
type DefNP struct {
	A *TrI `json:"a,omitempty" default:"3"`
	B *TrS `json:"b,omitempty" default:"x"`
	C *UnB `json:"c,omitempty" default:"true"`
	D *TrF `json:"d" default:"-0.5"`
	E *UnU `json:"e,required" default:"12"`
}

//vt:odd.default
//json:x
type DefExt struct {
	A ext.EI   `json:"a" default:"3"`
	B ext.EStr `json:"b" default:"x"`
	C ext.EB   `json:"c" default:"true"`
	D ext.EF   `json:"d" default:"2.5"`
}

//vt:odd.embedded
//json:x
type Emb struct {
	St `json:"st"`
	Ln `json:"ln,omitempty"`
	A  int `json:"a"`
}

//vt:odd.embedded
//json:strict
type EmbTri struct {
	TrI `json:"tri"`
	TrS `json:"trs,omitempty"`
	A   int `json:"a"`
}

//vt:odd.embedded
//json:x
type EmbTime struct {
	time.Time `json:"t"`
	A         int `json:"a"`
}

type (
	// GrA is declared in a group.
	//vt:odd.group
	//json:x
	GrA struct {
		X int `json:"x"`
	}
	//vt:odd.group
	//json:strict
	GrB struct {
		Y GrA `json:"y"`
	}
)

//vt:odd.encode
//json:encode
type EncInl struct {
	Plain `json:",inline"`
	X int             `json:"x,omitempty"`
	Y *string         `json:"y,omitempty"`
	M map[string]*Ln  `json:"m"`
	L []time.Time     `json:"l" layout:"2006-01-02"`
}

type Plain struct {
	PA int    `json:"pa"`
	PB string `json:"pb,omitempty"`
}

//vt:odd.decode
//json:decode,strict
type DecDef struct {
	X int             `json:"x" default:"5"`
	Y *string         `json:"y,required"`
	M map[string]*Ln  `json:"m"`
	T *time.Time      `json:"t,omitempty" layout:"2006-01-02"`
}

//vt:odd.texts
//json:strict
type DefText struct {
	A string  `json:"a" default:"a,b,"`
	B *string `json:"b,omitempty" default:"C:\\\\dir\\\\name"`
	C TrS     `json:"c" default:"say \\"hi\\", 'x'"`
	D string  `json:"d,omitempty" default:"line\\nbreak\\ttab"`
	E *UnS    `json:"e" default:"Ünï, コード \\u007f"`
	F string  `json:"f,required" default:",omitempty"`
	G string  `json:"g" default:" "`
	H string  `json:"h" default:"%d {} /* */"`
}

//vt:odd.layout
//json:x
type LayText struct {
	A time.Time   `json:"a" layout:"Mon, 02 Jan 2006 15:04:05 MST"`
	B *time.Time  `json:"b,omitempty" layout:"2006-01-02, 15:04"`
	D []time.Time `json:"d" layout:"2006, 01"`
	E time.Time   `json:"e" layout:"2006/01/02 'at' 15h04"`
	G time.Time   `json:"g" layout:"2006.01"`
}

//vt:odd.tagtext
//json:strict
type IStr struct {
	A int       "json:\\"a\\""
	B int       `json:"b"`
	C string    "json:\\"c,omitempty\\" default:\\"de f\\""
	D time.Time "json:\\"d\\" layout:\\"2006-01-02\\""
	E int       "json:\\"\\u0065\\""
	F *int      `json:"f,omitempty" xml:"ff" yaml:"y,omitempty"`
	G int       `xml:"gg" json:"g"`
	H int       `  json:"h"  `
}
'''
    return mkpkg('odd', s)


def compose():
    """Structures composed of embedded structures without tags: all parts share one object."""
    extra = {
        'ext/ext.go': '''package ext

//vt:compose.extpart
//json:x
type Part struct {
	Px int     `json:"px"`
	Pl []bool  `json:"pl,omitempty"`
	Pm map[string]string `json:"pm"`
}

//vt:compose.extdeep
//json:x
type Deep struct {
	Part
	Dq string `json:"dq"`
}
''',
    }
    s = '''
//vt:compose.first
//json:x
type First struct {
	A int      `json:"a"`
	B *string  `json:"b,omitempty"`
	C []string `json:"c"`
}

//vt:compose.second
//json:x
type Second struct {
	D float64            `json:"d"`
	E *int               `json:"e,omitempty"`
	F map[string]uint    `json:"f,omitempty"`
	G time.Time          `json:"g" layout:"2006-01-02"`
}

//vt:compose.third
//json:x
type Third struct {
	H bool      `json:"h,omitempty"`
	I uuid.UUID `json:"i"`
	J []First   `json:"j"`
	K *Second   `json:"k,omitempty"`
}

//vt:compose.needy
//json:x
type Needy struct {
	N string `json:"n,required"`
	M int    `json:"m" default:"7"`
	O *int   `json:"o,required"`
}

//vt:compose.one
//json:x
type One struct {
	First
}

//vt:compose.two
//json:x
type Two struct {
	First
	Second
}

//vt:compose.three
//json:x
type Three struct {
	First
	Second
	Third
}

//vt:compose.own
//json:x
type Own struct {
	X int `json:"x"`
	First
	Y *string `json:"y,omitempty"`
	Second
	Z []int `json:"z,omitempty"`
}

//vt:compose.last
//json:x
type Last struct {
	X string `json:"x,omitempty"`
	Y string `json:"y,omitempty"`
	Third
}

//vt:compose.ext
//json:x
type WithExt struct {
	ext.Part
	First
}

//vt:compose.extdeepuse
//json:x
type WithDeep struct {
	ext.Deep
	W bool `json:"w"`
	Second
}

//vt:compose.needs
//json:x
type Needs struct {
	First
	Needy
	Q int `json:"q,required"`
}

//vt:compose.levels
//json:x
type Levels struct {
	Two
	L int `json:"l"`
	Third
}

//vt:compose.fields
//json:x
type Fields struct {
	V Two            `json:"v"`
	P *Three         `json:"p,omitempty"`
	L []One          `json:"l"`
	M map[string]Own `json:"m,omitempty"`
	N int            `json:"n"`
}

//vt:compose.list
//json:x
type Twos []Two

//vt:compose.map
//json:x
type Owns map[string]*Own
'''
    p = mkpkg('compose', s, extra=extra)
    return p


def real():
    """Declarations as they occur in applications (the repository's own examples)."""
    s = '''
//json:optional
type SearchMetadata struct {
	CompletedIn float64 `json:"completed_in"`
	Count       int     `json:"count"`
	MaxID       int64   `json:"max_id"`
	MaxIDStr    string  `json:"max_id_str"`
	NextResults string  `json:"next_results"`
	Query       string  `json:"query"`
	RefreshURL  string  `json:"refresh_url"`
	SinceID     int64   `json:"since_id"`
	SinceIDStr  string  `json:"since_id_str"`
}

//json:optional
type Hashtag struct {
	Indices []int  `json:"indices"`
	Text    string `json:"text"`
}

//json:optional
type Entities struct {
	Hashtags     []Hashtag `json:"hashtags"`
	Urls         []*string `json:"urls"`
	UserMentions []*string `json:"user_mentions"`
}

//json:optional
type UserEntityDescription struct {
	Urls []*string `json:"urls"`
}

//json:optional
type URL struct {
	ExpandedURL *string `json:"expanded_url"`
	Indices     []int   `json:"indices"`
	URL         string  `json:"url"`
}

//json:optional
type UserEntityURL struct {
	Urls []URL `json:"urls"`
}

//json:optional
type UserEntities struct {
	Description UserEntityDescription `json:"description"`
	URL         UserEntityURL         `json:"url"`
}

//json:optional
type User struct {
	ContributorsEnabled            bool         `json:"contributors_enabled"`
	CreatedAt                      string       `json:"created_at"`
	DefaultProfile                 bool         `json:"default_profile"`
	DefaultProfileImage            bool         `json:"default_profile_image"`
	Description                    string       `json:"description"`
	Entities                       UserEntities `json:"entities"`
	FavouritesCount                int          `json:"favourites_count"`
	FollowRequestSent              *string      `json:"follow_request_sent"`
	FollowersCount                 int          `json:"followers_count"`
	Following                      *string      `json:"following"`
	FriendsCount                   int          `json:"friends_count"`
	GeoEnabled                     bool         `json:"geo_enabled"`
	ID                             int          `json:"id"`
	IDStr                          string       `json:"id_str"`
	IsTranslator                   bool         `json:"is_translator"`
	Lang                           string       `json:"lang"`
	ListedCount                    int          `json:"listed_count"`
	Location                       string       `json:"location"`
	Name                           string       `json:"name"`
	Notifications                  *string      `json:"notifications"`
	ProfileBackgroundColor         string       `json:"profile_background_color"`
	ProfileBackgroundImageURL      string       `json:"profile_background_image_url"`
	ProfileBackgroundImageURLHTTPS string       `json:"profile_background_image_url_https"`
	ProfileBackgroundTile          bool         `json:"profile_background_tile"`
	ProfileImageURL                string       `json:"profile_image_url"`
	ProfileImageURLHTTPS           string       `json:"profile_image_url_https"`
	ProfileLinkColor               string       `json:"profile_link_color"`
	ProfileSidebarBorderColor      string       `json:"profile_sidebar_border_color"`
	ProfileSidebarFillColor        string       `json:"profile_sidebar_fill_color"`
	ProfileTextColor               string       `json:"profile_text_color"`
	ProfileUseBackgroundImage      bool         `json:"profile_use_background_image"`
	Protected                      bool         `json:"protected"`
	ScreenName                     string       `json:"screen_name"`
	ShowAllInlineMedia             bool         `json:"show_all_inline_media"`
	StatusesCount                  int          `json:"statuses_count"`
	TimeZone                       string       `json:"time_zone"`
	URL                            *string      `json:"url"`
	UtcOffset                      int          `json:"utc_offset"`
	Verified                       bool         `json:"verified"`
}

//json:optional
type StatusMetadata struct {
	IsoLanguageCode string `json:"iso_language_code"`
	ResultType      string `json:"result_type"`
}

//json:optional
type Status struct {
	Contributors         *string        `json:"contributors"`
	Coordinates          *string        `json:"coordinates"`
	CreatedAt            string         `json:"created_at"`
	Entities             Entities       `json:"entities"`
	Favorited            bool           `json:"favorited"`
	Geo                  *string        `json:"geo"`
	ID                   int64          `json:"id"`
	IDStr                string         `json:"id_str"`
	InReplyToScreenName  *string        `json:"in_reply_to_screen_name"`
	InReplyToStatusID    *string        `json:"in_reply_to_status_id"`
	InReplyToStatusIDStr *string        `json:"in_reply_to_status_id_str"`
	InReplyToUserID      *string        `json:"in_reply_to_user_id"`
	InReplyToUserIDStr   *string        `json:"in_reply_to_user_id_str"`
	Metadata             StatusMetadata `json:"metadata"`
	Place                *string        `json:"place"`
	RetweetCount         int            `json:"retweet_count"`
	Retweeted            bool           `json:"retweeted"`
	Source               string         `json:"source"`
	Text                 string         `json:"text"`
	Truncated            bool           `json:"truncated"`
	User                 User           `json:"user"`
}

//json:optional
type LargeStruct struct {
	SearchMetadata SearchMetadata `json:"search_metadata"`
	Statuses       []Status       `json:"statuses"`
}

//json:optional
type XLStruct struct {
	Data []LargeStruct `json:"data"`
}

type (
	//json:strict
	Person struct {
		OriginName `json:",inline"`
		Middle     *string    `json:"middle,omitempty"`
		DOB        *time.Time `json:"dob,omitempty"`
		Passport   *Passport  `json:"passport"`
		Tables     MapTable   `json:"tables"`
	}
	OriginName struct {
		OriginNameName    `json:",inline"`
		OriginNameSurname `json:",inline"`
	}
	OriginNameName struct {
		Name string `json:"name"`
	}
	OriginNameSurname struct {
		Surname string `json:"surname"`
	}
	//json:strict
	Passport struct {
		Number  string    `json:"number"`
		DateDoc time.Time `json:"dateDoc"`
	}
	//json:strict
	TableOf struct {
		TableName string   `json:"tableName"`
		Tables    []*Table `json:"tables,omitempty"`
	}
	//json:strict
	Table struct {
		Counter     int       `json:"counter"`
		Assessments []int     `json:"assessments,omitempty"`
		Time        time.Time `json:"time"`
		Avg         float64   `json:"avg"`
		Tags        []Tag     `json:"tags"`
	}
	//json:strict
	Tag struct {
		TagName  string `json:"tagName"`
		TagValue string `json:"tagValue"`
	}
	//json:strict
	MapTable map[string]TableOf
	//json:strict
	MapInt64 map[string]int64
)

//json:marshal
type TestStruct struct {
	HasCodes bool   `json:"has_codes,omitempty"`
	Referer  string `json:"referer,omitempty"`
	SiteID   string `json:"site_id,omitempty"`
	Address      string `json:"url,omitempty"`
	UserID   string `json:"user_id,omitempty"`
}

//json:marshal
type TestStructTyped struct {
	HasCodes bool   `json:"has_codes,omitempty"`
	Referer  string `json:"referer,omitempty"`
	SiteID   string `json:"site_id,omitempty"`
	Address      Address    `json:"url,omitempty"`
	UserID   string `json:"user_id,omitempty"`
}

type Address string
'''
    return mkpkg('real', s)


HIDDEN = ['int', 'int8', 'float64', 'bool', 'string', '*string', '*int', '[]byte', '[]int', '[]string', 'map[string]int', 'map[string]string', 'time.Time', '*time.Time',
          'uuid.UUID', '*uuid.UUID', 'St', '*St', '[]St', '[]*St', 'map[string]St', 'map[string]*St', 'NSl', 'NMp', 'TrI', 'TrS', 'map[int]int', '[][]int', 'ext.ES', '*ext.ES']


def hidden():
    """Members that are no part of the document."""
    s = PRELUDE
    for i, t in enumerate(HIDDEN):
        s += '''
//vt:hidden|%(t)s
//json:%(k)s
type Hid%(i)d struct {
	A int     `json:"a"`
	H %(t)s `json:"-"`
	B *string `json:"b,omitempty"`
}
''' % dict(t=t, i=i, k=('x', 'strict')[i % 2])
    s += '''
//vt:hidden.first
//json:strict
type HidFirst struct {
	Secret string   `json:"-"`
	List   []string `json:"-"`
	A      int      `json:"a"`
	B      string   `json:"b,required"`
}

//vt:hidden.last
//json:x
type HidLast struct {
	A int    `json:"a,omitempty"`
	B string `json:"b,omitempty" default:"dflt"`
	Secret, More string `json:"-"`
}

//vt:hidden.only
//json:strict
type HidOnly struct {
	A int            `json:"-"`
	B map[string]int `json:"-"`
}

//vt:hidden.onlyx
//json:x
type HidOnlyX struct {
	A int            `json:"-"`
	B []string `json:"-"`
}

//vt:hidden.array
//json:x
type HidArr struct {
	A [3]int `json:"-"`
	B int    `json:"b"`
}

//vt:hidden.dupnames
//json:x
type HidNames struct {
	Mu   int    `json:"-"`
	Name string `json:"Mu"`
	B    int    `json:"B"`
	C    int    `json:"-"`
	D    int    `json:"C"`
}

//vt:hidden.nested
//json:x
type HidNest struct {
	A HidFirst             `json:"a"`
	B *HidLast             `json:"b,omitempty"`
	C []HidFirst           `json:"c"`
	D map[string]HidLast   `json:"d"`
	E map[string]*HidOnlyX `json:"e,omitempty"`
	F HidOnlyX             `json:"f,omitempty"`
	G HidOnly              `json:"g"`
	H HidNest2             `json:"-"`
}

//vt:hidden.nested2
//json:x
type HidNest2 struct {
	Z HidFirst `json:"z"`
	Y int      `json:"-"`
}

//vt:hidden.inline
//json:strict
type HidInl struct {
	A int `json:"a_own"`
	HidPart `json:",inline"`
	H bool `json:"-"`
	Z int `json:"z"`
}

//vt:hidden.part
//json:strict
type HidPart struct {
	P int    `json:"p"`
	H2 string `json:"-"`
	Q string `json:"q,omitempty"`
}

//vt:hidden.composed
//json:x
type HidComp struct {
	HidPart2
	H bool `json:"-"`
	Z int  `json:"z"`
}

//vt:hidden.part2
//json:x
type HidPart2 struct {
	P int    `json:"p"`
	H2 string `json:"-"`
	Q string `json:"q,omitempty"`
}

//vt:hidden.embedded
//json:x
type HidEmb struct {
	St `json:"-"`
	Q int `json:"q"`
}

//vt:hidden.options
//json:strict
type HidOpt struct {
	A int    `json:"-" default:"5"`
	D time.Time `json:"-" layout:"2006-01-02"`
	E int    `json:"e"`
}

//vt:hidden.list
//json:x
type HidList []HidFirst

//vt:hidden.map
//json:x
type HidMap map[string]HidLast
'''
    return mkpkg('hidden', s)


def extremes():
    """Long names, wide structures, deep shapes, names that agree in a long beginning."""
    kinds = ['int', 'string', '*int8', '[]int', 'map[string]string', 'St', '*St', '[]St', 'map[string]*St', 'bool', 'float64', 'time.Time',
             'uuid.UUID', '[]byte', 'TrS', 'Ln', 'uint16', '[]*string', '[]time.Time', '*time.Time']
    alpha = {'a': 'abcdefghijklmnopqrstuvwxyz-0123456789_', 'c': 'абвгдежзийклмнопрстуфхцчшщъыьэюя', 'j': '日月火水木金土年時分秒', 'e': '😀😁😂🚀🎉🐍'}

    def text(kind, n, k):
        a = alpha[kind]
        return ''.join(a[(i * 7 + k) % len(a)] for i in range(n))

    out = ''
    for kind, lens in (('a', (31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400, 1000)), ('c', (16, 32, 63, 64, 65, 128, 300)),
                       ('j', (11, 21, 22, 43, 85, 86)), ('e', (8, 16, 17, 32, 64, 65))):
        for tag in ('strict', 'x'):
            fs = ''
            for k, n in enumerate(lens):
                t = kinds[(k * 3 + len(kind) + (tag == 'x') * 5 + n) % len(kinds)]
                opt = ',omitempty' if (k % 3 == 1 or t[0] == '*') else (',required' if k % 4 == 2 else '')
                fs += '\tF%d %s `json:"%s%s"`\n' % (n, t, text(kind, n, k), opt)
            out += '\n//vt:extremes.names\n//json:%s\ntype Long%s%s struct {\n%s}\n' % (tag, kind.upper(), tag.upper(), fs)
    # Go names
    fs = ''
    for k, n in enumerate((40, 63, 64, 65, 127, 128, 255, 256, 300)):
        t = kinds[(k * 7 + 2) % len(kinds)]
        fs += '\tM%s %s `json:"m%d%s"`\n' % (text('a', n, k).replace('-', 'Q'), t, n, ',omitempty' if t[0] == '*' or k % 2 else '')
    out += '\n//vt:extremes.gonames\n//json:strict\ntype T%s struct {\n%s}\n' % ('aBcDe' * 30, fs)
    out += '\n//vt:extremes.unicodenames\n//json:x\ntype Ширина struct {\n\tДлина int `json:"длина"`\n\tÉté *string `json:"été,omitempty"`\n\tÑ []Ширина `json:"ñ,omitempty"`\n\tX_Y_ map[string]int `json:"x_y_"`\n\tΔt float64 `json:"Δt,required"`\n}\n'
    # one long beginning
    for tag in ('strict', 'x'):
        fs = ''
        for k, n in enumerate((1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256)):
            t = kinds[(k * 3 + (tag == 'x')) % len(kinds)]
            fs += '\tP%d %s `json:"%s%s"`\n' % (n, t, 'a' * n, ',omitempty' if t[0] == '*' or k % 3 == 0 else '')
        for k, n in enumerate((8, 32, 64, 128)):
            fs += '\tQ%d %s `json:"%s%s"`\n' % (n, kinds[k], 'a' * (n - 1) + 'b', ',omitempty' if k == 2 else '')
            fs += '\tR%d %s `json:"%s%s"`\n' % (n, kinds[k], 'b' + 'a' * (n - 1), ',omitempty' if k == 2 else '')
        out += '\n//vt:extremes.prefix\n//json:%s\ntype Prefix%s struct {\n%s}\n' % (tag, tag.upper(), fs)
    # widths
    for k, n in enumerate((15, 18, 23, 24, 29, 31, 32, 34, 48, 63, 96, 127, 128, 129, 257)):
        fs = ''
        for i in range(n):
            t = kinds[(i + k) % len(kinds)] if n < 60 else ('int', 'string', 'bool', '*int8')[(i + k) % 4]
            opt = ',omitempty' if t[0] == '*' or (i + k) % 5 == 1 else (',required' if (i + k) % 13 == 6 else '')
            dflt = ' default:"%d"' % i if t == 'int' and i % 9 == 4 else ''
            fs += '\tW%d %s `json:"w%d%s"%s`\n' % (i, t, i, opt, dflt)
        out += '\n//vt:extremes.wide\n//json:%s\ntype Wide%d struct {\n%s}\n' % (('strict', 'x')[k % 2], n, fs)
    # depths
    fs = ''
    for d in range(2, 7):
        fs += '\tA%d %sint `json:"a%d"`\n\tB%d %s*St `json:"b%d,omitempty"`\n\tC%d %sstring `json:"c%d"`\n' % (d, '[]' * d, d, d, '[]' * d, d, d, '[]' * d, d)
    out += '\n//vt:extremes.lists\n//json:strict\ntype ListsIn struct {\n%s}\n' % fs
    prev = 'int16'
    for d in range(8):
        out += '\n//vt:extremes.chain\n//json:x\ntype Chain%d %s\n' % (d, prev)
        prev = 'Chain%d' % d
    out += '\n//vt:extremes.chain\n//json:strict\ntype Chains struct {\n%s}\n' % ''.join(
        '\tA%d []Chain%d `json:"a%d"`\n\tB%d map[string]Chain%d `json:"b%d,omitempty"`\n' % (d, d, d, d, d, d) for d in range(8))
    for d in range(14):
        out += '\n//vt:extremes.deep\n//json:%s\ntype Deep%d struct {\n\tA int `json:"a,omitempty"`\n%s\tZ string `json:"z"`\n}\n' % (
            ('strict', 'x')[d % 2], d, '\tN Deep%d `json:"n"`\n' % (d + 1) if d < 13 else '')
    return mkpkg('extremes', PRELUDE + out)


def filenames():
    """Files of one package under unusual names, and many of them."""
    fs = ['a.b.go', 'x-y.go', 'UPPER.go', 'type_s.go', 'v2.go', 'gen.go', 'go.go', 'main.go', 'x_linux.go', 'ünï.go', '1.go', 'a_test_x.go',
          'gen.go.go', 'valyjson.go', 'utils.go', 'x.gen_y.go', 'a+b.go', 'doc.go', 'deep/er/and/deep/er/still/q.go', 'dir.go/q.go',
          'UPPER/Q.go']
    extra = {}
    k = 0
    for f in fs:
        k += 1
        pkg = 'filenames' if '/' not in f else 'q'
        nxt = 'N%d' % (k + 1) if '/' not in f and k + 1 <= sum(1 for x in fs if '/' not in x) else 'int'
        extra[f] = """package %s

//vt:filenames.t
//json:%s
type N%d struct {
	A int    `json:"a"`
	B map[string]*%s `json:"b,omitempty"`
	C []%s `json:"c%d"`
}

//vt:filenames.u
//json:x
type M%d %s
""" % (pkg, ('strict', 'x')[k % 2], k, nxt, nxt, k, k, ('string', '[]N%d' % k, 'map[string]N%d' % k, 'int8')[k % 4])
    s = """
//vt:filenames.t
//json:x
type Own struct {
	A []N1           `json:"a"`
	B []*N2          `json:"b"`
	C map[string]N3  `json:"c"`
	D map[string]*N5 `json:"d,omitempty"`
}
"""
    for i in range(110):
        s += '\n//vt:filenames.tiny\n//json:%s\ntype Tiny%d %s\n' % (
            ('strict', 'x')[i % 2], i, ('struct {\n\tV%d int `json:"v%d"`\n\tN *Tiny%d `json:"n,omitempty"`\n}' % (i, i, (i + 8) % 112 // 8 * 8), 'int', '[]string', 'string', 'map[string]int', 'uint8', 'bool', 'float32')[i % 8])
    return mkpkg('filenames', s, extra=extra)


def lengths():
    """fixed arrays whose length is not a plain decimal number"""
    s = PRELUDE + """
const Three = 3

const (
	ln0 = iota
	ln1
	ln2
)

//vt:lengths.const
//json:x
type Co struct {
	A [Three]int           `json:"a"`
	B [Three]byte          `json:"b"`
	H []*St                `json:"h"`
}

//vt:lengths.top
//json:x
type CoT [Three]int16

//vt:lengths.top
//json:x
type CoB [Three]byte

//vt:lengths.expr
//json:x
type Ex struct {
	A [Three + 1]int          `json:"a"`
	B [2 * Three]byte         `json:"b"`
	C [1 << 2]string          `json:"c"`
	D [(2)]bool               `json:"d"`
	E [len("abc")]uint16      `json:"e"`
	F [len(strs) - 1]int      `json:"f"`
	H [Three % 2]time.Time    `json:"h"`
}

var strs [3]string

//vt:lengths.top
//json:x
type ExT [Three + 1]string

//vt:lengths.top
//json:x
type ExB [Three * 2]byte

//vt:lengths.base
//json:x
type Ba struct {
	A [0x2]int      `json:"a"`
	B [0b11]string  `json:"b"`
	C [0o4]byte     `json:"c"`
	D ['\\x03']int  `json:"d"`
	E [0_1]int64    `json:"e"`
	F [03]float32   `json:"f"`
}

//vt:lengths.top
//json:x
type BaT [0x2]int8

//vt:lengths.top
//json:x
type BaI [0b10]bool

//vt:lengths.iota
//json:x
type Io struct {
	A [ln2]int  `json:"a"`
	B [ln1]byte `json:"b"`
}

//vt:lengths.top
//json:x
type IoT [ln2]time.Time

//vt:lengths.ext
//json:x
type Xt struct {
	A [lenx.N]int        `json:"a"`
	B [lenx.N]byte       `json:"b"`
	C [lenx.N + 1]string `json:"c"`
}

//vt:lengths.top
//json:x
type XtT [lenx.N]int32

//vt:lengths.long
//json:x
type Lg struct {
	A [100]byte         `json:"a"`
	B [64]byte          `json:"b,omitempty"`
	C [255]byte         `json:"c,required"`
	D [1000]byte        `json:"d"`
	E [100]int          `json:"e"`
	F [70]string        `json:"f"`
	G [128]bool         `json:"g"`
	H [33]float64       `json:"h"`
}

//vt:lengths.long
//json:x
type LgA [100]byte

//vt:lengths.long
//json:x
type LgB [256]byte

//vt:lengths.long
//json:x
type LgC [1001]byte

//vt:lengths.long
//json:x
type LgS [129]string

//vt:lengths.long
//json:x
type LgI [300]int64

//vt:lengths.top
//json:x
type XtB [lenx.N]byte
"""
    return mkpkg('lengths', s, imports=['"@MOD@/lenx"'], extra={'lenx/lenx.go': 'package lenx\n\nconst N = 4\n'})


def keytypes():
    """maps whose keys are types declared elsewhere, or in other ways"""
    vals = ['int', 'string', 'bool', 'float64', 'int8', '*int', '*string', 'St', '*St', 'uint64']
    s = PRELUDE + """
//vt:keys.own
//json:x
type OwnK string

//vt:keys.own
type Plain string

//vt:keys.chain
type Chain Plain

//vt:keys.alias
type Alias = string

//vt:keys.alias
type AliasK = keyx.Key
"""
    for k, kt in [('X', 'keyx.Key'), ('G', 'keyx.Gen'), ('O', 'OwnK'), ('P', 'Plain'), ('C', 'Chain'), ('A', 'Alias'), ('B', 'AliasK'), ('S', 'keyx.Strict')]:
        fs = ''
        for i, v in enumerate(vals):
            fs += '\tF%d map[%s]%s `json:"f%d%s"`\n' % (i, kt, v, i, ['', ',omitempty', ',required'][i % 3])
            if v in ('*int', '*string'):
                continue  # not supported at top level
            s += '\n//vt:keys.top\n//json:x\ntype T%s%d map[%s]%s\n' % (k, i, kt, v)
        s += '\n//vt:keys.members\n//json:x\ntype M%s struct {\n%s}\n' % (k, fs)
    return mkpkg('keytypes', s, imports=['"@MOD@/keyx"'], extra={'keyx/keyx.go': 'package keyx\n\ntype Key string\n\n//json:x\ntype Gen string\n\n//json:strict\ntype Strict string\n'})


PAIRKINDS = [  # type, option, default
    ('int', '', ''), ('int', ',omitempty', ''), ('string', '', ''), ('string', ',omitempty', 'dflt'), ('bool', ',required', ''), ('*int', ',omitempty', ''),
    ('*string', '', ''), ('float64', ',omitempty', '2.5'), ('uint8', '', '7'), ('int32', ',required', ''), ('[]int', '', ''), ('[]string', ',omitempty', ''), ('[]*St', ',omitempty', ''),
    ('[][]string', '', ''), ('[2]int', '', ''), ('map[string]int', '', ''), ('map[string]*St', ',omitempty', ''), ('map[KeyT]St', '', ''), ('St', '', ''),
    ('St', ',omitempty', ''), ('*Ln', ',omitempty', ''), ('*St', ',required', ''), ('time.Time', '', ''), ('*time.Time', ',omitempty', ''), ('uuid.UUID', ',omitempty', ''),
    ('[]byte', '', ''), ('[]byte', ',omitempty', ''), ('TrS', '', ''), ('TrI', ',omitempty', '3'), ('NSl', ',omitempty', ''), ('NMp', '', ''), ('[]time.Time', ',omitempty', ''),
    ('@hidden', '', ''), ('@inline', '', ''), ('@embed', '', ''),
]


def pairs(seed):
    """Every kind of member follows every other kind somewhere (an Euler circuit over the kinds, cut into structures)."""
    r = random.Random(seed * 31 + 7)
    n = len(PAIRKINDS)
    left = {a: r.sample(range(n), n) for a in range(n)}
    walk, stack = [], [r.randrange(n)]
    while stack:
        v = stack[-1]
        if left[v]:
            stack.append(left[v].pop())
        else:
            walk.append(stack.pop())
    walk.reverse()
    out, parts, k, i = '', '', 0, 0
    while i < len(walk) - 1:
        w = r.choice([9, 17, 29, 41])
        fs = ''
        for j, x in enumerate(walk[i:i + w + 1]):
            t, opt, d = PAIRKINDS[x]
            nm = '%d_%d' % (k, j)
            if t == '@hidden':
                fs += '\tH%s %s `json:"-"`\n' % (nm, r.choice(['int', 'string', '[]int', '*St', 'map[string]string', 'time.Time']))
            elif t in ('@inline', '@embed'):
                pt = 'Part%s' % nm
                a, b = r.choice(PAIRKINDS[:32]), r.choice(PAIRKINDS[:32])
                parts += '\n//vt:pairs.part\n//json:x\ntype %s struct {\n\tA%s %s `json:"pa%s%s"`\n\tB%s %s `json:"pb%s%s"`\n}\n' % (
                    pt, nm, a[0], nm, a[1], nm, b[0], nm, b[1])
                fs += '\t%s%s\n' % (pt, ' `json:",inline"`' if t == '@inline' else '')
            else:
                fs += '\tF%s %s `json:"f%s%s"%s`\n' % (nm, t, nm, opt, ' default:"%s"' % d if d else '')
        out += '\n//vt:pairs.struct\n//json:%s\ntype Pairs%d struct {\n%s}\n' % ('x', k, fs)
        k += 1
        i += w
    return mkpkg('pairs', PRELUDE + """
//vt:pairs.key
//json:x
type KeyT string
""" + parts + out)


def special_packages(seed=1):
    return [names(), many(), deep(), strictmix(), inline(), inlinefb(), extinline(), times(), uuids(), byteses(), defaults(),
            required(), transit(), tagctl(), inherit(), aliases(), multifile(), faulty(), twins(), refs(), odd(), samename(), real(), compose(), hidden(), pkgnames(), lookalikes(), extremes(), filenames(), lengths(), keytypes(), pairs(seed)] + namesakes()
