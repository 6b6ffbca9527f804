"""The properties, and for each the monitors that decide it.

properties.jsonl and MANIFEST.json are written from this table (mk.py), and
check.py takes the monitors from it."""

A = 'generator/codegen/'
F = A + 'field/'
STRUCT, ARRAY, MAP, BYTES, TRANSIT, CODE = (A + x + '.go' for x in ('struct', 'array', 'map', 'byteslice', 'transit', 'codegen'))
FILL, EXTR, FIELDS, FBYTES, MARSH, MARSHS = (F + x + '.go' for x in ('fill', 'extractors', 'fields', 'byteslice', 'marshal', 'marshalers'))
HELP, TAGS = A + 'helpers/asthelpers.go', A + 'tags/tags.go'
ANALYSE, PARSER, UTIL = 'generator/analyse.go', 'generator/parser.go', 'generator/static/tpl/valyjson_utils.go.tpl'
STATIC, DISC = 'generator/static/static.go', 'generator/discoverer/parser.go'

ALL_INPUTS = {'over': ['programs', 'inputs'], 'text': 'every supported Go type declaration and every document or value of it'}

CORPUS = ('Corpus: one package per base type with every supported wrapper (value, pointer, slice, array, nested slice, map with string and '
          'named keys) as plain, omitempty, required and defaulted members and as top level types, special packages, and seeded random structs. ')
DOCS = 'Documents are built by a model from the type (random layout, escapes, member order) and then changed. '
VALS = 'Values are built by reflection (zero, sparse, dense, edge leaves). '
NT = 'Non-trivial and distinct: a (type, text or value) pair not seen before in this run.'

PROPS = {}


def P(id, title, statement, over, text, why, files, mechanism, monitors=(), rule='', **kw):
    assert len(title) <= 80, title
    PROPS[id] = dict(title=title, statement=statement, quantifier={'over': over, 'text': text}, why=why, files=files,
                     mechanism=[{'name': n, 'where': w} for n, w in mechanism], monitors=list(monitors), rule=rule, **kw)


P('P01', 'Encoding states exactly the value, as valid JSON',
  'For every value of a type with a generated encoder, encoding yields one valid JSON document that holds each declared, non-omitted member '
  'exactly once under its tag name, in declaration order, with exactly the value it has in memory (numbers exact, text unchanged, nil pointers, lists and maps as null or as the declared emptiness), and nothing else.',
  ['programs', 'inputs'], 'every supported type declaration; every value of it',
  'Tests encode a few hand-written values of about thirty types; a wrong separator, cast or branch shows only for certain member orders, shapes and values.',
  [STRUCT, ARRAY, MAP, MARSH, MARSHS, FIELDS],
  [('member separator and omit handling', MARSHS + ':WriteBlock.Render'), ('encoder of structs', STRUCT + ':MarshalToFunc'),
   ('value writers by kind', FIELDS + ':GetValueExtractor')],
  ['encode'], CORPUS + VALS + 'Each is encoded; an independent JSON reader and a reflective specification compare the document with the value. ' + NT,
  min=5000)

P('P02', 'Decoding accepts every valid document and yields exactly its value',
  'For every document that is valid for a type (any white space, any escaping, any member order, optional members present or absent) the generated decoder '
  'succeeds and the resulting value is exactly the one the document states, with every member in its own field.',
  ['programs', 'inputs'], 'every supported type declaration; every valid document of it',
  'Tests decode a few fixed texts; the property is about all documents of all declarations.',
  [STRUCT, ARRAY, MAP, FILL, EXTR, BYTES, TRANSIT],
  [('object decoder', STRUCT + ':FillFromFunc'), ('value extraction by kind', FILL + ':TypedValue'), ('storing', FILL + ':fillField')],
  ['decode'], CORPUS + DOCS + 'The decoded value is compared leaf by leaf with an executable specification. ' + NT, min=5000)

P('P03', 'Decoding an encoded value gives the value back',
  'For every value whose members hold a value the format can state, decoding the document produced by the generated encoder into a new value succeeds and gives an equal value; '
  'encoding that again gives the same document (up to map order).',
  ['programs', 'inputs'], 'every type with generated encoder and decoder; every value (dates up to the precision of their layout)',
  'Encoder and decoder are built by different code; tests compare them on a handful of values.',
  [STRUCT, ARRAY, MAP, FILL, MARSHS], [('encoder', STRUCT + ':MarshalToFunc'), ('decoder', STRUCT + ':FillFromFunc')],
  ['roundtrip'], CORPUS + VALS + 'Encode, decode into a new value, compare, encode again. ' + NT, min=5000)

P('P04', 'A value of the wrong JSON kind is refused, wherever it stands',
  'A document in which any one value has a JSON kind (string, number, boolean, array, object) other than the declared Go type takes is refused with an error, at every depth and position; '
  'it is never coerced, skipped or silently replaced by a zero value.',
  ['programs', 'inputs'], 'every supported declaration; every position of a document; every other kind',
  'Tests try one wrong kind in a few members; errors inside nested lists, maps and optional members take other code paths.',
  [FILL, EXTR, FIELDS, ARRAY, MAP], [('error check after each extraction', EXTR + ':checkErrAndReturnParsingError'), ('typed getters', FILL + ':typeExtraction')],
  ['kind'], CORPUS + DOCS + 'In each accepted document every place in turn gets a value of each other kind; the decoder must refuse (or accept where the type takes both). ' + NT, min=20000)

P('P05', 'A number outside the range or form of its type is refused',
  'A number that the declared Go type cannot represent exactly as an integer (too large, too small, negative for unsigned types, fractional or exponent form) is refused with an error at every position; '
  'it is never truncated, wrapped or rounded.',
  ['programs', 'inputs'], 'every numeric type, in every member, element and map value position; every number',
  'Tests check a few bounds of plain members only.',
  [FILL, EXTR, FIELDS], [('range check', FILL + ':checkErr'), ('limits', FILL + ':getMaxByType'), ('width of extraction', FILL + ':typeExtraction')],
  ['range'], CORPUS + DOCS + 'Every number in an accepted document is replaced by values around and beyond the limits of its type. ' + NT, min=10000)

P('P06', 'A repeated member of a structure is refused',
  'A document that states a declared member of a structure more than once, in whatever spelling of the key, order or position, at top level or in any nested structure, is refused with an error.',
  ['programs', 'inputs'], 'every structure, every member, every position of the repetition',
  'Tests repeat a member of one or two small structures; the check is bit bookkeeping that depends on member count and order.',
  [STRUCT], [('duplicate check', STRUCT + ':ValidatorFunc')],
  ['dup'], CORPUS + DOCS + 'In each accepted document every member of every object is repeated (adjacent and far, same and other value, escaped key). ' + NT, min=3000)

P('P07', 'Unknown members: refused by strict structures, ignored by all others',
  'A structure declared strict refuses every document with a member it does not declare (names differing in case or spelling included); every other structure accepts the document and ignores such members whatever their value, and its result is unaffected.',
  ['programs', 'inputs'], 'every structure (strict, non-strict, and nested mixes of both); every unknown key and value',
  'Tests use one unknown key; prefixes, case variants, empty and escaped keys and nested mixes are not tried.',
  [STRUCT, TAGS, ANALYSE], [('strict check', STRUCT + ':ValidatorFunc'), ('strict tag', TAGS + ':StrictRules')],
  ['unknown'], CORPUS + DOCS + 'Unknown members of many spellings and values are inserted into every object of accepted documents. ' + NT, min=3000, about=r'strict')

P('P08', 'A missing required member is refused, a present one never',
  'If and only if a member declared required (and without a default) is absent or has no value in its object, decoding is refused with an error; this holds for every member, every count of members and at every depth.',
  ['programs', 'inputs'], 'every structure with required members; every subset of its members',
  'Tests drop single members of tiny structures; the bookkeeping depends on the number and the order of members.',
  [STRUCT, FILL], [('presence check', STRUCT + ':ValidatorFunc'), ('required', FILL + ':ifDefault')],
  ['required'], CORPUS + DOCS + 'Required members are removed, set to null, and combined with removal of others. ' + NT, min=1500, about=r'required')

P('P09', 'An absent member with a default takes exactly that default',
  'When a member with a default is absent from the document (or, for members where null means absent, null) the decoded value holds exactly the declared default; when it is present the default has no influence, even if the present value is zero.',
  ['programs', 'inputs'], 'every type that can have a default; every default; every document',
  'Tests use two or three defaults.',
  [FILL, HELP, TAGS], [('default branch', FILL + ':ifDefault'), ('literal', HELP + ':BasicLiteralFromType')],
  ['default'], CORPUS + DOCS + 'Members with defaults are removed, nulled, set to zero values. ' + NT, min=1000, about=r'default:')

P('P10', 'Null and absence are handled the same way everywhere',
  'A null for a pointer, list or map member leaves it without a value and is accepted (a member of a declared list, map or pointer type may refuse it instead); a null for a plain scalar is refused; an absent member without default is left untouched; '
  'this holds at every position, including elements of lists and values of maps.',
  ['programs', 'inputs'], 'every declaration; every place of a document',
  'Tests set one or two members to null.',
  [FILL, EXTR, ARRAY, MAP, UTIL], [('null test', UTIL + ':valueIsNotNull'), ('reference filling', FILL + ':fillRefField')],
  ['null'], CORPUS + DOCS + 'Every place of accepted documents in turn, and random subsets, become null. ' + NT, min=8000)

P('P11', 'Omitempty leaves out exactly the empty members',
  'A member is left out of the encoded document if and only if it is declared omitempty and empty (zero scalar, nil pointer, empty list or map, zero date or identifier); '
  'whatever subset of members is left out, the remaining ones are separated correctly and the document stays valid.',
  ['programs', 'inputs'], 'every declaration with omitempty members; every subset of empty members',
  'The separator logic depends on which of the preceding members were written: 2^n subsets, tests try a few.',
  [MARSHS, FIELDS, STRUCT], [('emptiness condition', FIELDS + ':notEmptyCondition'), ('separator', MARSHS + ':WriteBlock.Render')],
  ['omitempty'], CORPUS + 'Values with random subsets of empty members, including all and none; only presence and separators are judged. ' + NT, min=3000, about=r'omitempty')

P('P12', 'Malformed input yields an error: no panic, no hang, no false success',
  'For every byte string that is not a valid JSON document, decoding returns an error, and for every byte string at all it returns normally: it does not panic, overflow the stack, loop or crash the process.',
  ['programs', 'inputs'], 'every type with a decoder; every byte string',
  'Tests feed a handful of broken texts; robustness is about all of them.',
  [CODE, FILL, EXTR, FBYTES, UTIL], [('parse error handling', CODE + ':NewUnmarshalFunc'), ('base64 buffer', FBYTES + ':ByteSliceFillFrom'), ('date texts', UTIL + ':parseDateTime')],
  ['malformed'], CORPUS + 'Truncations, byte flips, insertions, deletions, splices, deep nesting, huge numbers and odd literals of accepted documents; encoding/json decides whether a text is valid JSON. ' + NT,
  min=20000, race_thorough=['malformed'])

P('P13', 'Decoded values and encoded documents never share storage with anything else',
  'After decoding, nothing that happens to the input bytes or to later decodes changes the decoded value; after encoding, neither the source value nor an earlier returned document changes when the other is modified or more documents are produced.',
  ['programs', 'inputs', 'histories'], 'every type; every document; every later use of the input buffer, of pooled parsers and writers',
  'The parser is pooled and hands out texts that live in its buffer; only a later decode on the same pooled parser exposes a missing copy.',
  [CODE, EXTR, FBYTES, MAP], [('parser pool', UTIL), ('string copies', EXTR + ':stringExtraction'), ('map keys', FILL + ':mapExtraction'), ('buffer of the writer', CODE + ':NewMarshalFunc')],
  ['alias'], CORPUS + DOCS + 'Input buffer scribbled over, parser reused on same-shaped other text, results compared with deep copies; encoded documents compared after further encodes and mutation of the source. ' + NT,
  min=2000, race_thorough=['alias'])

P('P14', 'Concurrent use of the generated code is race free and gives sequential results',
  'Any number of goroutines may decode and encode, with the same and with different types, distinct values or one shared value being only encoded; there is no data race and every call gives the result it gives alone.',
  ['schedules', 'programs', 'inputs'], 'every type; every interleaving of decode and encode calls, failing ones included',
  'The tests start goroutines for one type without comparing results of failing and succeeding calls that share the pools.',
  [CODE, UTIL], [('parser pool', UTIL), ('returning the parser', CODE + ':NewUnmarshalFunc'), ('writer', CODE + ':NewMarshalFunc')],
  [], CORPUS + 'The same calls run alone and then on many goroutines under the race detector, shuffled, with yields; results must agree. ' + NT,
  race=['concurrent'], race_only=True, min=2000, race_thorough=['history'])

P('P15', 'A reset value is empty and as good as new',
  'After Reset a value of any content is indistinguishable, for decoding and encoding, from a new one: every member is zero, nil or of length zero, nothing of the former content shows up in a later decode or encode, and Reset never touches storage shared with other values beyond the value itself.',
  ['programs', 'histories'], 'every type with Reset; every former content; every later document',
  'Tests reset one or two values; stale elements show only when a longer content is followed by a shorter or sparser one.',
  [CODE, STRUCT, ARRAY, MAP, BYTES, TRANSIT], [('reset statements', CODE + ':resetStmt'), ('struct reset', STRUCT + ':ResetFunc')],
  ['reset'], CORPUS + VALS + 'Fill, reset, inspect every leaf, decode other documents into it, compare with a new value. ' + NT, min=1500)

P('P16', 'IsZero tells exactly the empty values',
  'IsZero answers true for a value if and only if every member is zero, nil or empty, whichever member it is and however deep it lies.',
  ['programs', 'inputs'], 'every type with IsZero; every value, in particular those with exactly one non-zero leaf',
  'Tests ask a couple of values; forgetting one member is visible only for values where only that member is set.',
  [STRUCT, ARRAY, MAP, BYTES, TRANSIT, HELP], [('zero tests', STRUCT + ':ZeroFunc'), ('zero of a type', HELP + ':ZeroValueOfT')],
  ['iszero'], CORPUS + 'Zero values, values with exactly one leaf set (each leaf in turn), dense and sparse values. ' + NT, min=1500)

P('P17', 'A decode error names the place that is wrong',
  'When decoding fails because of one wrong value or key, the error text names the path to that place: members and keys as spelled in the document, from the outermost object inwards, never a place that is not on the way to it.',
  ['programs', 'inputs'], 'every declaration; every position of a fault',
  'Tests check the text of a few errors of flat structures.',
  [EXTR, UTIL, STRUCT, ARRAY, MAP], [('path wrapping', UTIL + ':WrapPath'), ('path element of each check', EXTR + ':checkErrAndReturnParsingError')],
  ['errpath'], CORPUS + DOCS + 'One place is broken; the path in the error must be that place (or, below lists of lists, lead to it). ' + NT, min=3000)

P('P18', 'All entry points agree and encoding does not change the value',
  'UnmarshalJSON, FillFromJSON and decoding through encoding/json accept the same documents with the same result; MarshalJSON, MarshalTo and encoding through encoding/json give the same document; encoding the same value twice gives the same document and leaves the value unchanged, and a nil receiver encodes as null.',
  ['programs', 'inputs'], 'every type; every document and value',
  'Tests mostly use one entry point per type.',
  [CODE, STRUCT, ARRAY, MAP, TRANSIT], [('UnmarshalJSON', CODE + ':NewUnmarshalFunc'), ('MarshalJSON', CODE + ':NewMarshalFunc')],
  ['api'], CORPUS + DOCS + VALS + 'Every entry point is called with the same input and the outcomes are compared. ' + NT, min=2000)

P('P19', 'Dates are read and written exactly by their layout',
  'A date member is written with its declared layout (RFC 3339 with nanoseconds when none is declared) and read back as the same instant; texts that are not a date in an accepted layout, and impossible dates, are refused, as plain member, pointer, list element or top level type alike.',
  ['programs', 'inputs'], 'every declaration with dates and layouts; every instant, zone and text',
  'Tests use a couple of dates in one zone.',
  [EXTR, MARSHS, UTIL, FILL], [('reading', EXTR + ':timeExtraction'), ('writing', MARSHS + ':timeMarshal'), ('layouts', UTIL + ':parseDateTime')],
  ['time'], CORPUS + 'Valid, borderline and broken date texts and random instants in many zones in every position a date can have. ' + NT, min=500, about=r'time\.Time')

P('P20', 'Identifiers (UUID) are read and written exactly',
  'A UUID member accepts exactly the texts that denote a UUID and stores exactly that identifier; it is written in canonical form and reads back equal; every other text is refused.',
  ['programs', 'inputs'], 'every declaration with UUIDs; every text and identifier',
  'Tests use a few identifiers.',
  [EXTR, MARSHS], [('reading', EXTR + ':uuidExtraction'), ('writing', MARSHS + ':uuidMarshal')],
  ['uuid'], CORPUS + 'Valid, borderline and broken UUID texts and random identifiers in every position. ' + NT, min=200, about=r'uuid\.UUID')

P('P21', 'Byte strings are exact base64',
  'A byte list is written as the standard base64 text of its content and read from exactly such texts: content, length and later appends are independent of the input and of earlier content, and texts that are not base64 are refused.',
  ['programs', 'inputs'], 'every declaration with byte lists and byte arrays; every content and text',
  'Tests use a few short contents; padding lengths, long contents and reused storage are not covered.',
  [FBYTES, BYTES, MARSHS], [('reading', FBYTES + ':ByteSliceFillFrom'), ('writing', FBYTES + ':ByteSliceMarshal')],
  ['base64'], CORPUS + 'All lengths around padding boundaries, long contents, valid and broken texts in every position. ' + NT, min=400, about=r'\[\d*\]byte|\[\d*\]uint8')

P('P22', 'Inlined structures behave as if their members were declared in place',
  'A structure that inlines another one (same file, other file or other package, several levels) reads and writes the inlined members exactly as if declared at that position: same names, order, options, required, default, strict and duplicate rules.',
  ['programs', 'inputs'], 'every structure with inlining; every document and value',
  'Tests inline one structure once.',
  [ANALYSE, STRUCT, MARSHS], [('collecting', ANALYSE + ':collectFields'), ('other packages', ANALYSE + ':exploreInlinedSelector'), ('fallback', MARSHS + ':inlineStructMarshal')],
  ['inline'], 'Types with inlined structures; the encode, decode, duplicate, unknown, required, default and null monitors run over them. ' + NT, min=2000, about=r',inline')

P('P23', 'Types declared from other types keep the behaviour of their base',
  'A type declared from another type (basic, declared, list, map, structure, of the same or another package, with or without own methods) reads and writes exactly as its underlying type demands, with conversions that keep every value.',
  ['programs', 'inputs'], 'every chain of declarations; every document and value',
  'Tests use a few declared types in one position each.',
  [TRANSIT, FIELDS, FILL, A + 'helpers/gotypes.go', ANALYSE], [('denoted type', A + 'helpers/gotypes.go:DenotedType'), ('transit types', TRANSIT), ('other packages', ANALYSE + ':resolveExternal')],
  ['declared'], 'Types built from declared types; the encode, decode, range, null, required and round trip monitors run over them. ' + NT, min=4000)

P('P24', 'Supported declarations always generate code that compiles and is self-contained',
  'For every combination of supported declarations the generator succeeds and its output compiles, has exactly the methods each declaration asks for (and none for undecorated ones), and imports neither the module of the generator nor any package beyond the standard library, its fixed support libraries and the packages of the source.',
  ['programs'], 'every combination of supported types, options, declared names, files and packages',
  'Tests compile about thirty sample files; clashes of names, imports and shapes are combinatorial.',
  [ANALYSE, PARSER, STRUCT, FIELDS, FILL, STATIC], [('assembling', ANALYSE + ':BuildDecoders'), ('imports', PARSER + ':FixImports')],
  [], CORPUS + 'Every package is generated and given to the Go compiler; method sets are read by reflection, imports from the output. ' + NT,
  gen=['compile'], min=100)

P('P25', 'Generation is deterministic',
  'The same source gives byte for byte the same output, whatever the directory, the way paths are written, earlier output lying in place, unrelated files and packages around, the environment, and whatever was generated before in the same process.',
  ['programs', 'configurations', 'histories'], 'every source; every run, place and order of generation',
  'Tests generate each sample once, in one place.',
  [PARSER, ANALYSE, DISC, STATIC], [('assembling', PARSER + ':Print'), ('imports', PARSER + ':imports'), ('package lookup', DISC)],
  [], 'Every corpus package is generated many times in new processes, other directories, relative paths, over its own and over stale output, alone and after others; all outputs are compared. Distinct: (condition, output file).',
  gen=['determinism'], min=1000)

P('P26', 'The generator writes its two outputs and nothing else',
  'A successful run creates or replaces exactly the requested output file and the helper file beside it, both valid formatted Go of the source\'s package with the generated-code mark; no other file is created, changed or removed, and a refused input leaves every file as it was.',
  ['programs', 'configurations'], 'every source and output location, fresh and repeated, accepted and refused',
  'Tests look at the content of the output only.',
  [PARSER, STATIC], [('writing', PARSER + ':Print'), ('formatting', PARSER + ':fmtGOFile'), ('helper', STATIC + ':Print')],
  [], 'The whole tree around source, output, working, temporary and home directory is compared before and after each run; the command of the repository is run in a copy of it. Distinct: (package, phase, file).',
  gen=['files'], min=300, min_counts={'files.packages': 50, 'files.command_runs': 3})

P('P27', 'Unsupported declarations are refused, never mis-generated',
  'For a declaration the generator does not support, the generator stops with a message or produces output that does not compile; it never produces code that compiles and reads or writes such values wrongly.',
  ['programs', 'inputs'], 'every Go type expression in every position (plain, omitempty, required, top level)',
  'Tests contain only supported declarations.',
  [ANALYSE, FIELDS, FILL, ARRAY, MAP], [('refusals', FILL + ':interfaceExtraction'), ('untagged members', ANALYSE + ':collectFields')],
  [], 'Some 110 type expressions in four positions and two dozen odd declarations; those that compile are judged by the encode, decode and round trip monitors. ' + NT,
  gen=['unsupported'], min=400)

P('P28', 'The outcome of a call does not depend on earlier calls',
  'Decoding a document into a new value or encoding a value gives the same outcome whatever was decoded and encoded before in the process, successfully or not, of the same or other types.',
  ['histories', 'programs', 'inputs'], 'every sequence of decode and encode calls, failing ones included',
  'Tests run each call in isolation; pooled parsers and writers carry state from call to call.',
  [CODE, UTIL], [('parser pool', UTIL), ('taking and returning', CODE + ':NewUnmarshalFunc')],
  ['history'], CORPUS + 'Random sequences of decodes (good, broken, huge) and encodes over all types; each outcome is compared with the outcome the same call had first. ' + NT,
  min=2000, race_thorough=['history'])

P('P29', 'Every Unicode text survives, in values and keys',
  'Every text (all code points, control characters, quotes, escapes, any length) is read and written unchanged as value, list element, map key, declared text type and member name, in escaped and unescaped spelling.',
  ['inputs', 'programs'], 'every text in every position that holds text',
  'Tests use ASCII and a few escapes.',
  [MARSHS, EXTR, FILL, MAP], [('writing', MARSHS + ':stringMarshal'), ('reading', EXTR + ':stringExtraction'), ('keys', FILL + ':mapExtraction')],
  ['strings'], 'Every Unicode code point, control characters, surrogates, long texts, in every text position of the corpus. ' + NT, min=5000, about=r'string')

P('P30', 'Every number survives exactly',
  'Every value of every numeric type, including the limits and the negative ones, is read and written exactly in every position a number can have.',
  ['inputs', 'programs'], 'every numeric type and position; every value',
  'Tests use small numbers.',
  [FIELDS, MARSHS, FILL], [('casts when writing', MARSHS + ':intMarshal'), ('casts when reading', FILL + ':typedFillIn')],
  ['numbers'], 'All 8 and 16 bit values, powers of two and ten and their neighbours, limits, random floats, in every numeric position. ' + NT, min=5000, about=r'int|float|uint')

P('P31', 'The generated code agrees with encoding/json',
  'For types whose tags mean the same to both, encoding/json reads the documents the generated encoder writes as the same value, and the generated decoder reads the documents encoding/json writes as the same value; for valid documents both decoders accept, the results are equal.',
  ['programs', 'inputs'], 'every type without generator-only options; every value and document',
  'Tests compare with the standard library for one or two types.',
  [STRUCT, MARSHS, FILL, FIELDS], [('encoder', STRUCT + ':MarshalToFunc'), ('decoder', STRUCT + ':FillFromFunc')],
  ['std'], CORPUS + 'A mirror type without generated methods is built by reflection and handled by encoding/json. ' + NT, min=3000)

P('P32', 'Fixed arrays take exactly their length',
  'A fixed array is written with all its elements and read only from lists of exactly its length: shorter and longer lists are refused, every element lands at its index, and no element is lost or left from before.',
  ['programs', 'inputs'], 'every declaration with fixed arrays; every list length and content',
  'Tests read one array of the right length.',
  [EXTR, ARRAY, MARSHS], [('length check', EXTR + ':arrayExtraction'), ('declared arrays', ARRAY + ':FillFromFunc')],
  ['fixed'], CORPUS + DOCS + 'Lists of every length from empty to well beyond the declared one. ' + NT, min=500, about=r'\[\d+\]')

P('P33', 'Maps keep exactly their entries',
  'A map is read and written entry by entry: each key exactly as spelled with exactly its value, no entry added, lost, merged with another or mixed up with its neighbours, for string and declared key types, whatever the element type, keys and order.',
  ['programs', 'inputs'], 'every declaration with maps; every set of entries',
  'Tests use maps with one or two entries.',
  [MAP, FILL, MARSHS], [('declared maps', MAP), ('member maps', FILL + ':mapExtraction'), ('writing', MARSHS + ':mapMarshal')],
  ['maps'], 'Types with maps: documents with many, repeated, empty, escaped and null entries, and values with many entries. ' + NT, min=2000, about=r'map\[')

P('P34', 'Errors of hand-written handlers are passed on',
  'When a nested type with hand-written handlers reports an error while decoding or encoding, the whole call reports that error (still recognisable), at whatever position it stands, and the handler is called exactly once for each value present, with exactly the bytes or value that stand there.',
  ['fault_sequences', 'programs'], 'every position of a hand-written part; failure of each call in turn',
  'No test has a handler that fails.',
  [EXTR, FIELDS, STRUCT, ARRAY, MAP], [('nested decoding', EXTR + ':nestedExtraction'), ('error of nested encoding', MARSHS + ':structMarshal')],
  ['faults'], 'A corpus with hand-written parts in every position; the k-th handler call fails, for every k, when decoding and encoding. ' + NT, min=300, level='fault_enumeration', about=r'hand')

P('P35', 'Decoding into a used value changes exactly the members the document states',
  'Decoding into a value that already has content sets every member present in the document to what it states and leaves members that are absent or null (and have no default) as they were; a map member gains or changes exactly the entries the document names, while a document of a declared map type is read as a whole; nothing of the former content leaks into scalars, lists, elements or entries that the document states.',
  ['programs', 'histories', 'inputs'], 'every type; every former content and document',
  'Tests decode into new values.',
  [STRUCT, FILL, EXTR, ARRAY], [('storing', FILL + ':fillField'), ('reuse of lists', EXTR + ':sliceExtraction')],
  ['over'], CORPUS + DOCS + 'Values with content receive documents with random subsets of members. ' + NT, min=2000)

P('P36', 'Structures embedded without a tag share one object with their surroundings',
  'A non-strict structure that embeds other non-strict ones without a tag reads and writes one object: each embedded part takes its members from that object (required, default, null and wrong kinds decided as in the part alone) and writes them into it, next to the own members and those of the other parts, '
  'each exactly once and comma separated, a part that is zero being left out as a whole; wherever the structure stands and however many parts and levels it has, what is encoded is valid JSON and decodes to the same value (unless a part left out has required or defaulted members).',
  ['programs', 'inputs'], 'every composition of supported structures; every value and document of it',
  'The samples compose two parts at one level; tests decode and encode one value of them.',
  [STRUCT, MARSHS, FIELDS, ANALYSE], [('reading the parts', STRUCT + ':fillFieldStmts'), ('merging the parts', STRUCT + ':MarshalToFunc'), ('members of parts', ANALYSE + ':exploreInlinedIdent')],
  ['compose'], 'Types with untagged embedded structures in every place (before, between and after own members, several levels, other packages, as member, element and entry). ' + DOCS + VALS + NT, min=2000,
  about=r'compose')

P('P37', 'Members tagged json:"-" are no part of any document',
  'A member tagged json:"-" never shows in an encoded document, whatever it holds; decoding never sets or changes it, whatever members the document has ("-" and the Go name included, which are members like any other undeclared one); '
  'all members beside it are read and written as if it were not there, wherever it stands; IsZero and Reset take it into account as any other member.',
  ['programs', 'inputs', 'histories'], 'every supported type as left out member at every place; every content of it; every document',
  'No sample has such a member.',
  [FIELDS, STRUCT, ANALYSE], [('leaving out when writing', FIELDS + ':MarshalStatements'), ('leaving out when reading', FIELDS + ':FillStatements'), ('validation', STRUCT + ':ValidatorFunc')],
  ['hidden'], 'Types with left out members of 30 types and at every place (first, last, only, inlined, in parts, nested); these members have random content while the encode, decode, round trip, unknown, duplicate, reuse, IsZero and Reset monitors run. ' + NT,
  min=4000, about=r'json:"-"')

P('P38', 'The code of a type depends on its declaration alone',
  'The code generated for a type is decided by its declaration and those of the types it uses: the order of the declarations, what else the file declares before, between and behind them (decorated or not), comments, blank lines, line ends, indentation and tags of other tools change nothing of it; renaming types or importing a package under another name changes only the names in it. '
  '(An undecorated structure that a decorated list names as its element takes the directives of the first such list.)',
  ['programs', 'configurations'], 'every source; every rearrangement, addition and omission around its declarations',
  'Tests generate fixed files once.',
  [PARSER, ANALYSE, DISC, FIELDS], [('directives and lookup', ANALYSE), ('tags', 'generator/codegen/tags/tags.go'), ('assembling', ANALYSE + ':BuildDecoders')],
  [], 'Every source file of the corpus is rewritten in some twenty ways (order, additions, omissions, renaming, layout) and generated again; the generated declarations are compared one by one, local names apart. Distinct: (package, file, rewriting).',
  gen=['meta'], min=1000, min_counts={'meta.compared': 20000})
