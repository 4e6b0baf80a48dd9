#!/usr/bin/env python3
"""The properties and how each is checked; writes properties.jsonl, plan.json and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, bounds, note=None, marks=None, observe=None, state=None, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bounds=bounds,
                  note=note, marks=marks or {}, observe=observe or [], state=state or [], kw=kw))


G, PA, MO, ST, SE, DE, IN, PT = ('src/yaml.pest', 'src/yaml/parser.rs', 'src/yaml/mod.rs', 'src/yaml/string.rs',
                                 'src/yaml/serializer.rs', 'src/yaml/deserializer.rs', 'src/yaml/insert.rs', 'src/path.rs')

prop('C01', 'Parsing any text ends with a document or a located error',
     'Parsing any text (nested at most a few hundred levels) terminates and gives either a document or an error; it never panics. '
     'The line and column an error reports lie inside the text (line between 1 and the number of lines, column between 1 and the length plus one).',
     ['inputs'], 'every text, valid or not, including incomplete block scalars, wrong indentation indicators and multibyte characters',
     'The tests parse some forty hand-written documents, nearly all valid; none of them asserts anything about malformed text.',
     [G, PA], [('grammar', G), ('construction of the document from the parse tree', PA)],
     'The text is a fixed context around a window of n symbolic bytes: ctx(before, n, after), any ASCII byte except NUL, newlines and carriage '
     'returns included. Multibyte characters only where a context names them. Deeper nesting than the contexts show is outside the bounds.')
prop('C02', 'Formatting a parsed document and parsing it again gives the same document',
     'For every text that parses, writing the document out and parsing the result succeeds and gives an identical document: '
     'the same structure, scalars with their quoting style, comments, aliases and anchors.',
     ['inputs'], 'every text that parses, without carriage returns',
     'The snapshot tests format about forty documents and compare the text; they do not reparse it, and say nothing about other documents.',
     [G, PA, MO, 'src/yaml/document.rs', 'src/yaml/aliased.rs'], [('writing of each kind of value', MO), ('parser', PA)],
     'The text is a fixed context around a window of n symbolic bytes: ctx(before, n, after), any ASCII byte except NUL and carriage return. '
     'Texts that do not parse are left to C01.')
prop('C09', 'Block scalars denote the string YAML says',
     'The string of a literal block scalar is its lines without their common indentation, each ended by a newline, with the final newlines treated as '
     'the chomping indicator says (none: exactly one, "-": none, "+": all). In a folded block scalar, line breaks between lines of text become a space, '
     'blank lines stand for the newlines, and the breaks around more indented lines are kept.',
     ['inputs'], 'every sequence of text lines, blank lines (with fewer spaces than the indentation) and more indented lines, every chomping and indentation indicator, at every nesting',
     'Tests pin five block scalars.', [G, PA, ST], [('lines of a block scalar', G), ('folding and chomping', ST), ('removal of the indentation', PA)],
     'Three body lines, each blank (0, 1 or all of the indentation in spaces), text or text indented two more, of two symbolic printable characters, plus 0 to 2 trailing '
     'blank lines; every chomping indicator, with and without indentation indicator; as value of a hash, of a nested hash and as array element; with and without a following sibling.')


prop('C03', 'Prettying a document keeps its data',
     'For every document that parses, prettying it keeps the data it holds: the same structure, keys and order, every string with the same content, '
     'strings staying strings and plain numbers, booleans and nulls staying what they are.',
     ['inputs'], 'every document, in particular strings that need quotes, escapes, long strings and strings with newlines, in block and flow values',
     'Tests pretty some twenty documents and compare with a snapshot.', [MO, ST], [('choice of style', MO), ('folding and literal lines', ST)],
     'The text is a fixed context around a window of n symbolic bytes: ctx(before, n, after), any ASCII byte except NUL and carriage return; the data is read by an '
     'independent reading of the document (harness/src/model.rs), which uses the repository only to decode quoted and block strings (C09 and C10 check that).')
prop('C22', 'The text of a pretty document parses, says the same and is stable',
     'For every document that parses, the text written for its pretty form parses again and holds the same data. '
     'Prettying that again and writing it gives the identical text.',
     ['inputs'], 'every document, in block and flow values, short and long strings',
     'Tests compare pretty output with snapshots and do not parse it again, nor pretty it twice.', [MO, ST, G, PA], [('choice of style', MO), ('writing', MO), ('parser', PA)],
     'As C03: windows of n symbolic ASCII bytes (no NUL, no carriage return) in fixed contexts ctx(before, n, after).')
prop('C04', 'Strings survive serialization and deserialization',
     'Every string, serialized as part of a value and deserialized from the result, is the same string: also when it looks like a number, boolean or null, holds quotes, '
     'backslashes, newlines or control characters, is long, or is a map key. The same holds after prettying the serialized value.',
     ['inputs'], 'every string, alone and as struct field, option, sequence element, tuple element, map key and value, newtype and untagged enum variant',
     'Tests serialize a few dozen strings.', [SE, DE, MO, ST], [('choice of quotes', SE), ('untyped scalars', DE), ('prettying', MO)],
     'any(n): every ASCII string without NUL of up to n characters; wide(pre, post): pre, one two or three byte character, post. h_c04_long adds 88 fixed characters.')
prop('C05', 'Values survive being serialized to text and read back',
     'A value serialized, put in a document, prettied or not, written as text and deserialized from that text is the same value. '
     'Map keys are those the text format has: letters, digits and underscores, then also dashes and inner spaces.',
     ['inputs'], 'every string in structs, options, sequences, nested sequences, tuples, maps and untagged enums; every such key; with and without prettying',
     'Tests take a handful of values through text.', [SE, DE, MO, PA, G], [('serializer', SE), ('writing', MO), ('parser', PA), ('deserializer', DE)],
     'any(n): every ASCII string without NUL of up to n characters; key(n): every key of up to n characters. The values around them are fixed. Both choices of prettying.')

prop('C06', 'Numbers, booleans, characters and options keep their value; other text is refused',
     'Every integer (8 to 128 bits, signed or not), boolean, character, unit and option of these, serialized and deserialized as the same type, in memory or through text, prettied or not, '
     'is the same value. Reading a scalar as an integer succeeds exactly when its text is that of an integer of the type (digits after an optional sign) and gives that integer; reading it as a boolean '
     'succeeds exactly for true, yes, on, false, no and off in lower case, upper case and capitalised; as a character exactly for one character; an option is absent exactly for a plain null.',
     ['inputs'], 'every value of the type; every text, in particular around the limits of each integer type',
     'Tests serialize and read a few numbers; none is at the limit of its type.', [SE, DE], [('scalars written', SE), ('scalars read', DE)],
     'Integers of 8 and 16 bits: every value; wider: 256 consecutive values around each boundary listed; 128 bits: printing below 10^16 only, because it is done in 256 bit arithmetic there. '
     'Text read: n any ASCII characters but NUL, after the prefix given.')
prop('C07', 'Structured values survive serialization and text',
     'Structs, enums (unit, newtype, tuple and struct variants; externally, internally and adjacently tagged, untagged), tuples, sequences, maps (with string, number, boolean and enum keys), options, '
     'boxes, flattened, defaulted, renamed and skipped fields: serialized and deserialized, in memory or through the document text, prettied or not, the value is the same.',
     ['inputs'], 'every combination of variants, lengths and presence of fields, and every leaf value, of the types listed',
     'Tests take a few structs and enums one way.', [SE, DE, MO, PA, G], [('serializer', SE), ('deserializer', DE), ('writing', MO), ('parser', PA)],
     'Vectors of up to 2 elements, enums nested once, leaves: any 8 bit integer, boolean and any ASCII string of at most one character; the types in harness/src/props/c07.rs. '
     'A document holds a collection, so values that are a scalar are only taken through memory.')
prop('C08', 'Untyped data is what the document says; data of the wrong kind is an error',
     'Deserialized into a type that accepts anything, a plain scalar is null, a boolean, an integer, a float or a string as its text says (integers when they fit 64 bits), a quoted or block scalar is always a string, '
     'arrays, hashes, flow or block, are sequences and maps with the same elements in order, and an alias is the value it names. '
     'Deserialized into a type of another kind than the data, or a tuple or array of another length, the result is an error, never a panic.',
     ['inputs'], 'every scalar text, every combination of kinds of values, read as every kind of type',
     'Tests deserialize into fixed types only.', [DE], [('choice of the type of a scalar', DE)],
     'Scalars: n any ASCII characters but NUL (plain1 to plain4), sets of number characters at the 64 bit limits; trees: every kind, nested twice; kinds of types: 18. '
     'Extra elements for a tuple are ignored or refused, either is accepted (serde leaves it to the format); the lenient reading of quoted numbers as numbers is by design.')

prop('C10', 'Plain and quoted scalars denote the string YAML says',
     'The string of a double quoted scalar is its text with the escapes replaced, the one of a single quoted scalar its text with doubled quotes halved; in both, a line break between two lines of text '
     'is a space, n blank lines are n newlines, and an escaped line break is nothing. A plain scalar is its text without the blanks around it; a "#" starts a comment only after a blank, '
     'a ":" ends a key only before a blank, and brackets and commas end it only in flow values.',
     ['inputs'], 'every text of a scalar, as value of a hash, array element, flow element and flow value, over one or more lines',
     'Tests read a dozen scalars, none over several lines with blanks.', [G, PA, ST], [('scalars', G), ('lines and escapes', ST)],
     'n symbolic printable characters inside the quotes or between fixed plain characters, in the contexts of harness/src/props/c10.rs; the oracle reads the characters independently. '
     'The escapes are n, t, r, quote, backslash and line break.')
prop('C11', 'The structure of a document follows its indentation',
     'Whatever the indentation widths, whether a nested hash or array is compact or on the next line, whatever blank lines and comments stand between, and whether the last line ends in a newline: '
     'an element belongs to the hash or array it is aligned with, and nested content to the nearest element indented less. A key or dash with nothing below it that is indented more has no value (an aligned array is the value of a key), and the text is an error.',
     ['inputs'], 'every tree of hashes and arrays and every way to lay it out',
     'The tests use one style of indentation.', [G, PA], [('indentation of hashes and arrays', G), ('construction', PA)],
     'Trees of up to three levels (harness/src/props/c11.rs), indentations of 1 to 3 per level, compact or not, blank lines and comments between, leaves plain, quoted, flow or block scalars, and all choices symbolic. Documents of 4 or 5 lines of two menus of 10 lines each, broad trees of up to 7 lines.')
prop('C16', 'A path text is read as the structure it spells, anything else is an error',
     'A path is keys separated by ".", "[n]" or "[*]" after a key, and "|field=value" conditions; blanks around these don\'t count. A text of that form is read as exactly these steps, '
     'any other text is an error (an index too large as well), and reading never panics. Putting paths together gives the path of the concatenated text.',
     ['inputs'], 'every text', 'Tests read a dozen well formed paths.', ['src/path.pest', 'src/path.rs'], [('grammar', 'src/path.pest'), ('construction', 'src/path.rs')],
     'ctx(pre, n, post): n symbolic ASCII characters (no NUL) between fixed texts, against an independent reader; insert(n): n steps of the four kinds.',
     marks={'h_c16_insert': [0], 't_c16_insert6': [0], 'h_c16_number': [0, 1]})
prop('C17', 'A path selects exactly the values it names, in order',
     'Looking up a path gives exactly the values it names: a key the value of that key in a block hash, "[n]" the n-th element of an array (comments don\'t count), "[*]" every element in order, '
     'each condition only the hashes holding that field with that text. Nothing else is given and the document isn\'t changed.',
     ['inputs'], 'every document and every path', 'Tests look up some twenty paths in fixed documents.', [MO, IN, 'src/yaml/array_data.rs', 'src/yaml/hash_data.rs', 'src/yaml/document.rs'],
     [('walk along a path', MO)],
     'Values nested three times with symbolic keys, scalars, order and comments; paths of up to three steps (key, [*], one or two indexes) with symbolic keys, indexes and conditions; '
     'an independent walk (harness/src/tree.rs) is the oracle.', marks={'h_c17_root': [0, 1], 'h_c17_one': [0, 1]})

prop('C12', 'Inserting puts the value at the place the path names and changes nothing else',
     'Inserting at a path whose last part is a key: in every hash the parts before it select, a missing key is appended with the value, a present one is replaced if overwriting is asked for and otherwise left. '
     'Everything else, comments and order included, stays; the number of insertions is reported. A path that selects no hash changes nothing. Inserting by call does the same.',
     ['inputs'], 'every document, path, value and choice of overwriting', 'Tests insert a dozen times into fixed documents.', [IN, MO, 'src/yaml/document.rs', 'src/yaml/array_data.rs', 'src/yaml/hash_data.rs'],
     [('insert_into_hash, insert_into_hash_by_call', IN), ('edit_hash_structure', MO)],
     'Values nested three times with symbolic keys, scalars, order and comments; paths of up to three steps (key, [*], one or two indexes) with symbolic keys, indexes and conditions (fields in every style); '
     'three kinds of inserted value. The effect is worked out by an independent walk (harness/src/tree.rs).', marks={'h_c12_root': [0]})
prop('C13', 'Removing, renaming and wrapping change exactly the values the path names',
     'For a path whose last part is a key, removing takes exactly the named fields out, renaming changes exactly their keys, wrapping puts exactly their values, with their names, in a hash under the given key. '
     'Everything else, comments and order included, stays; the number of changes is reported; a path that selects nothing changes nothing.',
     ['inputs'], 'every document and path', 'Tests remove, rename and wrap some ten times in fixed documents.', [IN, MO, 'src/yaml/document.rs', 'src/yaml/array_data.rs', 'src/yaml/hash_data.rs', 'src/yaml/hash_element.rs'],
     [('remove_from_hash, rename_field, to_object', IN), ('for_hash, edit_hash_structure', MO)],
     'As C12. Renaming to a key the hash already has gives it twice: that is left to the caller and not judged.', marks={'h_c13_root': [0]})
prop('C14', 'Moving fields to a subfield loses nothing',
     'In every hash the path selects, the given fields that are there move, in the order given, to the end of the subfield (a field of the same name there is replaced), which is added at the end of the hash if missing. '
     'Where the subfield is there but is no block hash, nothing changes; the subfield is not moved to itself and a field named twice moves once. Everything else stays and the number of changed hashes is reported.',
     ['inputs'], 'every hash, subfield, list of fields and path, whatever characters names have', 'Tests move fields in six fixed documents.', [IN], [('move_to_subfield', IN)],
     'Hashes of up to three fields with comments, the subfield of seven kinds at every place, up to three symbolic field names, paths of one step of each kind; names of two symbolic characters among those paths treat specially.')
prop('C15', 'Grouping a map by a field of its elements loses nothing',
     'In every hash the path selects that has the old map and not the new one: each element of the old map that is a hash whose selecting field is a string moves, without that field, to the hash of that name in the new map '
     '(the groups sorted by name, elements in order), with the comments before it; elements whose field is empty or is to be kept stay, without the field; other elements stay as they are. Otherwise nothing changes. The number of changed hashes is reported.',
     ['inputs'], 'every map, selecting field, names and list of kept values', 'Tests group one fixed document.', [IN], [('move_to_map_with_field_as_key', IN)],
     'Maps of up to three elements of five kinds with symbolic groups and comments between, the field in every style, the old map of six kinds, symbolic names of the maps and kept values, one step of each kind.')
prop('C18', 'Visiting and mapping reach every value once, in order',
     'Visiting calls the function once for every field value and array element, at every depth, in block hashes and arrays and within flow values, each before what it holds, in order. '
     'Mapping calls the function once for every value, contents before containers, in order, and puts its result in that place; names, keys and comments stay.',
     ['inputs'], 'every value', 'Tests visit and map two fixed values.', [MO, 'src/yaml/hash_data.rs', 'src/yaml/hash_element.rs', 'src/yaml/array_data.rs', 'src/yaml/aliased.rs'], [('visit_yaml, map_yaml', MO)],
     'Values nested up to three times: every kind of container, with comments, names, repeated keys and leaves in every style.')
prop('C19', 'An alias is read as the last value before it that has its name',
     'Deserialized, an alias is exactly the value last named so before it, wherever that stands (also in a field nobody reads, in another nesting, or itself given by an alias), for every type read. '
     'An alias without such a value, itself included, is an error; nothing overflows.',
     ['inputs'], 'every arrangement of names and aliases', 'Tests read four documents with aliases.', [DE], [('bind, resolve', DE)],
     'Lists of up to four values, nested up to twice, each a scalar, alias, named value, named hash holding another such value, array, or flow value with an alias; two names; aliases read as 13 types.',
     marks={'h_c19_text': [0]})
prop('C20', 'Floating point numbers survive serialization',
     'Every finite float, serialized and deserialized as the same type, in memory or through text, is the same number; infinities and NaN are read back as such.',
     ['inputs'], 'every bit pattern', 'Tests take four floats.', [SE, DE], [('floats written and read', SE)], '',
     na='Printing and reading a float is core::fmt (Grisu, then Dragon: bignum arithmetic and 128 bit products of the symbolic mantissa with tables) and dec2flt; no solver at hand decides that for a symbolic '
        'mantissa, and nothing of this repository is in between but the choice of text for infinities and NaN. What plain scalars are floats, and that they are read as what dec2flt gives for their text, is part of C08.')
prop('C21', 'No comment is lost, and the text of an edited document says what it holds',
     'Every comment of a text is in the document read, with its exact text and in order, and in its pretty form and the text of that. After removing, renaming, wrapping, inserting or moving values, '
     'the document written out parses to the same data and the same comments (two comments may end up in one line), and writing that again is stable.',
     ['inputs'], 'every document, place and text of comments, every edit', 'Tests compare a few documents with comments with snapshots, and never write an edited one and read it again.', [G, PA, MO, IN], [('comments read', PA), ('comments written', MO)],
     'Documents of up to three levels, comments behind each value and between elements, at every width of indentation; n symbolic ASCII characters (no NUL or line break) as text of one comment at 13 places; '
     'seven edits at every path of up to three steps in documents laid out with comments.')


def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'state': p['state'], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    claimed = [p for p in P if not p['kw'].get('na')]
    json.dump({p['id']: dict(feature=p['kw'].get('feature', p['id'].lower()), bounds=p['bounds'], marks=p['marks'],
                             assumptions=p['kw'].get('assumptions', []),
                             **{k: p['kw'][k] for k in ('time', 'time_thorough', 'icount') if k in p['kw']}) for p in claimed},
              open(V + '/plan.json', 'w'), indent=1)
    note = ('Bounded: every input within the stated windows, decided path by path by z3 over the LLVM IR of the real code (opt-level 1, overflow checks on). '
            'Trusts rustc/LLVM, the IR semantics of the executor (sampled paths are re-run on the natively compiled code every time) and z3.')
    json.dump({'version': 1, 'setup_cmd': 'python3 setup.py',
               'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                           'technique': 'symbolic execution of the compiled code (LLVM IR), branches and assertions decided by z3, counterexamples replayed',
                           'level': 'model_checking', 'level_note': (p['note'] + ' ' if p['note'] else '') + note} for p in claimed],
               'not_applicable': [{'property': p['id'], 'reason': p['kw']['na']} for p in P if p['kw'].get('na')],
               'notes': 'No hooks in /repo: everything the checks need is public. Findings are in known-findings.txt.'},
              open(V + '/MANIFEST.json', 'w'), indent=1)


main()
