"""C18: the sanitized compiler on every kind of text, file and command line that it may be given."""
import os, re, resource
from lib import build, report, schema
from lib.checks.gen_checks import schemas
from lib.checks.wire_checks import rng_for, scale

OUTPUTS = ('gen.hpp', 'gen.fwd.hpp', 'gen.detail.hpp')

SEEDS = [
    '''World-Schema { iso(1) standard(0) 8571 } DEFINITIONS AUTOMATIC TAGS EXTENSIBILITY IMPLIED ::= BEGIN
EXPORTS Rocket, id-rocket;
IMPORTS Fuel, Engine FROM Parts { 1 2 3 } burn FROM Parts;
Rocket ::= SEQUENCE { range INTEGER(0..10000), name UTF8String (SIZE(1..16)), message UTF8String DEFAULT "Hello World", fuel ENUMERATED { solid, liquid, gas },
  speed CHOICE { mph INTEGER, kmph INTEGER } OPTIONAL, payload SEQUENCE SIZE(1..4) OF UTF8String, ..., extra BOOLEAN, [[ added INTEGER, more NULL ]], ... , last REAL }
id-rocket OBJECT IDENTIFIER ::= { iso(1) member-body(2) 113549 }
END
Parts DEFINITIONS IMPLICIT TAGS ::= BEGIN
EXPORTS ALL;
Fuel ::= [APPLICATION 3] EXPLICIT INTEGER { red(1), blue(2), other(burn) } (red | blue | 5..MAX)
Engine ::= SET { a [0] BIT STRING { x(0), y(5) } DEFAULT '0101'B, b [1] OCTET STRING DEFAULT 'AF09'H, c [2] REAL DEFAULT -1.5, COMPONENTS OF Base }
Base ::= SET { z [PRIVATE 99] NULL, y [UNIVERSAL 31] VisibleString }
burn INTEGER ::= -5
END
''',
    '''Values DEFINITIONS IMPLICIT TAGS ::= BEGIN
defined-int INTEGER ::= -1123983485334
other-int INTEGER ::= defined-int
str OCTET STRING ::= "Constant string"
oid OBJECT IDENTIFIER ::= { one(0) two(1) three(2) }
oid2 OBJECT IDENTIFIER ::= { oid 7 other-int }
roid RELATIVE-OID ::= { 1 2 3 }
r REAL ::= 12.0
r2 REAL ::= PLUS-INFINITY
b BOOLEAN ::= TRUE
n NULL ::= NULL
bits BIT STRING ::= '01010001'B
hex OCTET STRING ::= '0F3A'H
quoted UTF8String ::= "a ""quoted"" word and a
  new line"
choice Ch ::= alternative : 5
seq Se ::= { a 5, b TRUE }
Ch ::= CHOICE { alternative INTEGER, other BOOLEAN }
Se ::= SEQUENCE { a INTEGER, b BOOLEAN DEFAULT FALSE, c Colour DEFAULT red }
Colour ::= ENUMERATED { red, green(5), ..., blue }
col Colour ::= green
END
''',
    '''Classes DEFINITIONS ::= BEGIN
ERROR ::= CLASS { &ParameterType OPTIONAL, &parameterTypeOptional BOOLEAN OPTIONAL, &ErrorPriority Priority OPTIONAL, &errorCode Code UNIQUE OPTIONAL }
WITH SYNTAX { [PARAMETER &ParameterType [OPTIONAL &parameterTypeOptional]] [PRIORITY &ErrorPriority] [CODE &errorCode] }
Code ::= CHOICE { local INTEGER, global OBJECT IDENTIFIER }
Priority ::= INTEGER(0..MAX)
OPERATION ::= CLASS { &ArgumentType OPTIONAL, &Errors ERROR OPTIONAL, &operationCode Code UNIQUE OPTIONAL, &synchronous BOOLEAN DEFAULT FALSE }
Use ::= SEQUENCE { code OPERATION.&operationCode, id INSTANCE OF OPERATION, arg ANY DEFINED BY code OPTIONAL, any ANY }
Constrained ::= SEQUENCE { code OPERATION.&operationCode ({Set}), arg OPERATION.&ArgumentType ({Set}{@code}) }
END
''',
    '''Parameterized DEFINITIONS EXPLICIT TAGS ::= BEGIN
T1 ::= OCTET STRING
T2{X} ::= SEQUENCE { a INTEGER, b X }
T3 ::= T2{T1}
T4 ::= SEQUENCE { a T2{ INTEGER }, b T2{ OCTET STRING } }
Pair{First, Second} ::= CHOICE { a [0] First, b [1] SEQUENCE OF Second, c [2] SET OF Pair2{First} }
Pair2{INTEGER:size, Type} ::= SET { t Type OPTIONAL }
Use ::= Pair { T1, BOOLEAN }
END
''',
    '''Constraints DEFINITIONS AUTOMATIC TAGS ::= BEGIN
A ::= INTEGER (0..5 | 7 | 10..MAX, ...)
B ::= IA5String (FROM ("a".."z") ^ SIZE (1..MAX))
C ::= SEQUENCE (SIZE (1..ub)) OF INTEGER (MIN..0)
D ::= OCTET STRING (CONTAINING A)
E ::= OCTET STRING (CONTAINING A ENCODED BY oid)
F ::= SEQUENCE { a INTEGER, b BOOLEAN OPTIONAL } (WITH COMPONENTS { ..., a (5), b PRESENT })
G ::= PrintableString (PATTERN "[A-Z]*")
H ::= INTEGER (ALL EXCEPT 5)
I ::= UTF8String (CONSTRAINED BY { -- anything -- })
J ::= SEQUENCE OF element INTEGER
K ::= SET SIZE (5) OF BIT STRING
L ::= INTEGER (INCLUDES A) (0<..<5) ! INTEGER : 5
ub INTEGER ::= 8
oid OBJECT IDENTIFIER ::= { 2 1 1 }
END
''',
    '''Strings DEFINITIONS ::= BEGIN
S ::= SEQUENCE { a BMPString, b GeneralString, c GraphicString, d IA5String, e ISO646String, f NumericString, g PrintableString, h TeletexString, i T61String, j UniversalString, k UTF8String,
 l VideotexString, m VisibleString, n CHARACTER STRING, o GeneralizedTime, p UTCTime, q ObjectDescriptor, r EXTERNAL, s EMBEDDED PDV, t DATE, u DATE-TIME, v DURATION, w TIME, x TIME-OF-DAY, y OID-IRI, z RELATIVE-OID }
R ::= SEQUENCE { next R OPTIONAL, many SEQUENCE OF R, some SET OF CHOICE { again R, stop NULL } }
M1 ::= Strings.S
END
''',
]
WORDS = '''ABSENT ABSTRACT-SYNTAX ALL ANY APPLICATION AUTOMATIC BEGIN BIT BMPString BOOLEAN BY CHARACTER CHOICE CLASS COMPONENT COMPONENTS CONSTRAINED CONTAINING DATE DATE-TIME DEFAULT DEFINED
DEFINITIONS DURATION EMBEDDED ENCODED ENCODING-CONTROL ENCODING_CONTROL END ENUMERATED EXCEPT EXPLICIT EXPORTS EXTENSIBILITY EXTERNAL FALSE FROM GeneralizedTime GeneralString GraphicString IA5String IDENTIFIER
IMPLICIT IMPLIED IMPORTS INCLUDES INSTANCE INSTRUCTIONS INTEGER INTERSECTION ISO646String MAX MIN MINUS-INFINITY NOT-A-NUMBER NULL NumericString OBJECT ObjectDescriptor OCTET OF OID-IRI OPTIONAL PATTERN PDV
PLUS-INFINITY PLUS_INFINITY PRESENT PrintableString PRIVATE REAL RELATIVE-OID RELATIVE-OID-IRI SEQUENCE SET SETTINGS SIZE STRING SYNTAX T61String TAGS TeletexString TIME TIME-OF-DAY TRUE TYPE-IDENTIFIER UNION
UNIQUE UNIVERSAL UniversalString UTCTime UTF8String VideotexString VisibleString WITH'''.split()
PUNCT = '{ } { } ( ) [ ] [[ ]] : ; , , , . .. ... ::= ::= | ! < ^ @ - & * / \\ " \' -- /* */ ='.split()
NUMBERS = ['0', '1', '2', '5', '-1', '-0', '127', '128', '255', '256', '2147483648', '4294967296', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809',
           '18446744073709551616', '99999999999999999999999999', '1.5', '-1.5', '0.0', '1.', '.5', '1e5', '1.5E-3', '1' + '0' * 400, '1' + '0' * 400 + '.0', '0.' + '0' * 400 + '1', '007', '1E400', '1.0e999999999999999999999']
STRINGS = ['""', '"x"', '"a ""q"" b"', '"\n"', "''B", "'01'B", "''H", "'A'H", "'0F'H", "'01 10'B", "'0f'H", "'2'B", '"' + 'x' * 3000 + '"', '"\\"', '"\xff\x80"', "'" + '0' * 5000 + "'B", '"?""?/', "'G'H"]
NAMES = ['A', 'B', 'X', 'a', 'b', 'x', 'Main', 'Undefined', 'undefined', 'T2', 'Ch', 'a-b', 'A-b', 'a--b', 'class', 'int', 'ERROR', '&Type', '&value', '&', 'A-', 'a-', 'a_b', '_', '__', 'A__', 'std', 'x' * 3000, 'OPERATION', 'Rocket', 'burn', 'oid']
TOKEN = re.compile(r'''--(?:-?[^\r\n-])*(?:--|-?)|/\*.*?\*/|"(?:""|[^"])*"|'[^'\n]*'[BH]?|::=|\.\.\.|\.\.|\[\[|\]\]|[A-Za-z&][A-Za-z0-9_-]*|-?\d+(?:\.\d+)?|\s+|.''', re.S)


def tokens(t):
    return TOKEN.findall(t)


def any_token(rng):
    return rng.choice([lambda: rng.choice(WORDS), lambda: rng.choice(PUNCT), lambda: rng.choice(PUNCT), lambda: rng.choice(NUMBERS), lambda: rng.choice(STRINGS), lambda: rng.choice(NAMES), lambda: rng.choice(NAMES)])()


def fragment(rng, depth=0):
    """something which is almost a type, a value, a constraint"""
    k = rng.randrange(16 if depth < 4 else 8)
    f = lambda: fragment(rng, depth + 1)
    name = lambda: rng.choice(['a', 'b', 'c', 'd', 'x', 'some-name'])
    if k < 5:
        return rng.choice(['INTEGER', 'BOOLEAN', 'OCTET STRING', 'BIT STRING', 'NULL', 'REAL', 'OBJECT IDENTIFIER', 'RELATIVE-OID', 'UTF8String', 'ANY', 'ANY DEFINED BY a', 'EXTERNAL', 'EMBEDDED PDV', 'GeneralizedTime', 'UTCTime',
                           'DATE', 'CHARACTER STRING', 'INSTANCE OF X', 'ObjectDescriptor', 'A', 'B', 'Main.A', 'P{INTEGER}', 'P{A}', 'P{P{A}}', 'Other.P{A}', 'Undefined', 'CL.&Type', 'CL.&value', 'CL.&Undefined', 'Undefined.&Type'])
    if k == 5:
        return 'INTEGER { %s(%s), y(2) }' % (name(), rng.choice(NUMBERS + ['v', 'w', 'undefined', 'Main.v', '{1 2}']))
    if k == 6:
        return 'ENUMERATED { %s }' % ', '.join(rng.choice([name(), name() + '(%s)' % rng.choice(NUMBERS + ['v', 'undefined']), '...', 'e%d' % i]) for i in range(rng.randint(0, 5)))
    if k == 7:
        return 'BIT STRING { %s(%s) }' % (name(), rng.choice(NUMBERS + ['v']))
    if k in (8, 9, 10):
        items = []
        for i in range(rng.randint(0, 5)):
            c = rng.randrange(10)
            if c == 0:
                items.append('...')
            elif c == 1:
                items.append('COMPONENTS OF ' + f())
            elif c == 2:
                items.append('[[ n%d %s ]]' % (i, f()))
            else:
                items.append('n%d %s%s' % (i if rng.random() < .9 else 0, f(), rng.choice(['', '', ' OPTIONAL', ' DEFAULT ' + value(rng)])))
        return rng.choice(['SEQUENCE', 'SET', 'CHOICE']) + ' { ' + ', '.join(items) + ' }'
    if k == 11:
        return rng.choice(['SEQUENCE OF ', 'SET OF ', 'SEQUENCE SIZE(1..5) OF ', 'SEQUENCE (SIZE(v)) OF ', 'SET OF x ']) + f()
    if k == 12:
        return '[%s%s] %s%s' % (rng.choice(['', 'APPLICATION ', 'PRIVATE ', 'UNIVERSAL ', 'CONTEXT ']), rng.choice(NUMBERS + ['v', 'w']), rng.choice(['', 'IMPLICIT ', 'EXPLICIT ']), f())
    if k == 13:
        return f() + ' (%s)' % rng.choice(['0..5', 'MIN..MAX', 'SIZE(1..5)', '5', 'v', 'a | b', 'ALL EXCEPT 5', 'WITH COMPONENTS { ..., a PRESENT }', 'FROM ("a".."b")', 'CONTAINING A', '{Set}{@a}', '...', '1, ..., 2', 'INCLUDES A', '"x"', 'PATTERN "x"', 'CONSTRAINED BY {}'])
    if k == 14:
        return 'P{%s}' % ', '.join(rng.choice([f(), value(rng)]) for _ in range(rng.randint(0, 3)))
    return 'CLASS { &Type, &value %s OPTIONAL, &Other DEFAULT %s }' % (f(), f())


def value(rng, depth=0):
    k = rng.randrange(10 if depth < 3 else 5)
    v = lambda: value(rng, depth + 1)
    if k < 2:
        return rng.choice(NUMBERS)
    if k == 2:
        return rng.choice(STRINGS[:12])
    if k == 3:
        return rng.choice(['v', 'w', 'undefined', 'Main.v', 'a', 'red', 'TRUE', 'FALSE', 'NULL', 'PLUS-INFINITY', 'MINUS-INFINITY', 'NOT-A-NUMBER'])
    if k == 4:
        return '{}'
    if k == 5:
        return '{ ' + ', '.join(v() for _ in range(rng.randint(1, 3))) + ' }'
    if k == 6:
        return '{ ' + ' '.join(rng.choice(['1', '2', 'v', 'w', 'oid', 'iso(1)', 'foo(v)', 'foo(oid)', 'iso', 'joint-iso-itu-t', 'Main.v', 'Main.oid', rng.choice(NUMBERS)]) for _ in range(rng.randint(1, 5))) + ' }'
    if k == 7:
        return 'a : ' + v()
    if k == 8:
        return '{ a ' + v() + ', b ' + v() + ' }'
    return 'INTEGER : ' + v()


def random_module(rng, name='Main', others=()):
    t = name + rng.choice([' ', ' ', ' ', ' { 1 2 3 } ', ' { iso(1) foo } ']) + 'DEFINITIONS ' + rng.choice(['', 'AUTOMATIC TAGS ', 'IMPLICIT TAGS ', 'EXPLICIT TAGS ']) + rng.choice(['', '', '', 'EXTENSIBILITY IMPLIED ']) + '::= BEGIN\n'
    if rng.random() < .2:
        t += rng.choice(['EXPORTS ALL;', 'EXPORTS;', 'EXPORTS A, v;']) + '\n'
    if others or rng.random() < .1:
        t += 'IMPORTS ' + ' '.join('%s FROM %s' % (', '.join(rng.sample(['A', 'B', 'C', 'v', 'w', 'P', 'P{}', 'CL', 'Undefined'], rng.randint(1, 3))), o) for o in (others or [rng.choice(['Main', 'Undefined'])])) + ';\n'
    for i in range(rng.randint(1, 6)):
        k = rng.randrange(12)
        if k == 0:
            t += 'P{%s} ::= %s\n' % (rng.choice(['T', 'T, U', 'INTEGER:x', 'Type:T', 'x', '']), fragment(rng).replace('B', 'T'))
        elif k == 1:
            t += 'CL ::= CLASS { &Type OPTIONAL, &value %s UNIQUE } WITH SYNTAX { TYPE &Type [VALUE &value] }\n' % fragment(rng)
        elif k < 5:
            t += '%s %s ::= %s\n' % (rng.choice(['v', 'w', 'oid', 'u']), rng.choice(['INTEGER', 'OBJECT IDENTIFIER', fragment(rng), 'A']), value(rng))
        else:
            t += '%s ::= %s\n' % (rng.choice(['A', 'B', 'C', 'D', 'Set']) if rng.random() < .5 else 'T%d' % i, fragment(rng))
    return t + 'END\n'


def mutate_tokens(rng, t, pool):
    ts = tokens(t)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        if not ts:
            break
        i = rng.randrange(len(ts))
        k = rng.randrange(9)
        if k == 0:
            del ts[i]
        elif k == 1:
            del ts[i:i + rng.randint(1, 8)]
        elif k == 2:
            ts.insert(i, ' ' + any_token(rng) + ' ')
        elif k in (3, 4):
            ts[i] = ' ' + any_token(rng) + ' '
        elif k == 5:
            j = rng.randrange(len(ts))
            ts[i], ts[j] = ts[j], ts[i]
        elif k == 6:
            j = rng.randrange(len(ts))
            ts[i:i] = ts[j:j + rng.randint(1, 12)]
        elif k == 7:
            ts[i] = ' ' + (fragment(rng) if rng.random() < .6 else value(rng)) + ' '
        else:
            o = tokens(rng.choice(pool))
            if o:
                j = rng.randrange(len(o))
                ts[i:i + rng.randint(0, 5)] = o[j:j + rng.randint(1, 20)]
    return ''.join(ts)


def mutate_bytes(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 5, 20])):
        i = rng.randrange(len(b) + 1)
        k = rng.randrange(6)
        if k == 0:
            b = b[:i]
        elif k == 1:
            b[i:i] = bytes([rng.randrange(256)])
        elif k == 2 and i < len(b):
            b[i] ^= 1 << rng.randrange(8)
        elif k == 3:
            del b[i:i + rng.randint(1, 30)]
        elif k == 4:
            b[i:i] = rng.choice([b'\0', b'\xff', b'--', b'/*', b'*/', b'"', b"'", b'\r', b'\xef\xbb\xbf', b'\x80', b'\x1a', b'{' * 20, b'((', b'-', b'&', b'/' * 3, b'\n' * 50, b'\t'])
        elif i < len(b):
            b[i] = rng.randrange(256)
    return bytes(b)


M = 'Main DEFINITIONS %sTAGS ::= BEGIN\n%s\nEND\n'


def auto(t):
    return M % ('AUTOMATIC ', t)


def corner_texts():
    """(label, text)"""
    out = [('empty file', ''), ('white space', ' \n\t\r\n '), ('one character', 'M'), ('NUL', '\0'), ('only a comment', '-- nothing'), ('comment without an end', 'A DEFINITIONS ::= BEGIN END -- xxx'), ('comment ended by a hyphen', 'A DEFINITIONS ::= BEGIN END --x-'),
           ('comment which is --', '--'), ('comment which is ---', '---'), ('block comment without an end', 'A DEFINITIONS ::= BEGIN END /* xxx'), ('block comment without an end, stars', '/***'), ('block comment, slash only', '/*/'),
           ('string without an end', auto('a UTF8String ::= "xyz')[:-5]), ('string without an end 2', '"'), ('binary string without an end', "'01"), ('number at the end', 'A DEFINITIONS ::= BEGIN a INTEGER ::= 5'), ('NUL in a comment', 'A DEFINITIONS ::= BEGIN -- x\0y\nB ::= INTEGER END'),
           ('NUL in a string', auto('a UTF8String ::= "x\0y"')), ('byte order mark', '\xef\xbb\xbf' + auto('A ::= INTEGER')), ('end missing', 'A DEFINITIONS ::= BEGIN B ::= INTEGER'), ('no assignments', 'A DEFINITIONS ::= BEGIN END'),
           ('text after the end', auto('A ::= NULL') + 'garbage'), ('two modules', auto('A ::= NULL') + auto('A ::= NULL').replace('Main', 'Other')), ('lower-case module', 'main DEFINITIONS ::= BEGIN END')]
    for n in NUMBERS:
        for k in ('a INTEGER ::= %s', 'A ::= [%s] NULL', 'A ::= ENUMERATED { a(%s), b }', 'A ::= INTEGER { a(%s) }', 'a OBJECT IDENTIFIER ::= { 1 %s }', 'a OBJECT IDENTIFIER ::= { foo(%s) 1 }', 'a REAL ::= %s', 'A ::= BIT STRING { a(%s) }',
                  'A ::= SEQUENCE { a INTEGER DEFAULT %s }', 'A ::= INTEGER (%s..5)', 'A ::= OCTET STRING (SIZE (%s))', 'A ::= ENUMERATED { a, ..., b(%s), c }', 'a ENUMERATED { x(1) } ::= %s', 'a BOOLEAN ::= %s', 'A ::= [APPLICATION %s] EXPLICIT NULL'):
            out.append(('number: ' + k % 'N', auto(k % n)))
    for t in ('INTEGER', 'BOOLEAN', 'NULL', 'REAL', 'OCTET STRING', 'BIT STRING', 'OBJECT IDENTIFIER', 'RELATIVE-OID', 'UTF8String', 'BMPString', 'GeneralizedTime', 'UTCTime', 'ENUMERATED {x, y}', 'SEQUENCE OF INTEGER', 'SET OF INTEGER', 'SEQUENCE {a INTEGER}', 'SET {a INTEGER}',
              'CHOICE {a INTEGER}', 'ANY', 'EXTERNAL', 'EMBEDDED PDV', 'CHARACTER STRING', 'DATE', 'TIME', 'DURATION', 'ObjectDescriptor', 'B', '[5] B', 'BIT STRING {x(1)}', 'INTEGER {x(1)}'):
        for v in ('5', '-5', '1.5', '"x"', "'01'B", "'0F'H", "''B", "''H", 'TRUE', 'NULL', '{}', '{1}', '{1 2 3}', '{1, 2}', '{a 5}', '{x}', '{x, y}', '{{1}}', 'a:5', 'x', 'v', 'a', 'PLUS-INFINITY', 'NOT-A-NUMBER', 'INTEGER : 5', '{mantissa 1, base 2, exponent 3}', 'Main.v', '9' * 30, 'u'):
            rest = '\nB ::= INTEGER\nv INTEGER ::= 5\nu UTF8String ::= "x"'
            out.append(('value: %s of %s' % (v[:10], t), auto('a %s ::= %s' % (t, v) + rest)))
            out.append(('default: %s of %s' % (v[:10], t), auto('A ::= SEQUENCE { a %s DEFAULT %s }' % (t, v) + rest)))
    for t in ('A ::= CHOICE { a A }', 'A ::= CHOICE { a A, b B }\nB ::= CHOICE { a [5] A }', 'A ::= CHOICE { }', 'A ::= CHOICE { ... }', 'A ::= SEQUENCE { a A }', 'A ::= SET { a A OPTIONAL }', 'A ::= SEQUENCE OF A', 'A ::= SET OF B\nB ::= SEQUENCE OF A', 'A ::= SEQUENCE { ... }', 'A ::= SET { ... }',
              'A ::= ENUMERATED {}', 'A ::= ENUMERATED {...}', 'A ::= ENUMERATED {a, ...}', 'A ::= SEQUENCE { ..., ... }', 'A ::= SEQUENCE { ..., a INTEGER, ... }', 'A ::= BIT STRING {}', 'A ::= INTEGER {}', 'P{T} ::= P{T}\nA ::= P{INTEGER}', 'P{T} ::= SEQUENCE { a P{T} OPTIONAL }\nA ::= P{INTEGER}',
              'P{T} ::= SEQUENCE { a P{SEQUENCE OF T} OPTIONAL }\nA ::= P{INTEGER}', 'P{T} ::= Q{T}\nQ{T} ::= P{T}\nA ::= P{NULL}', 'P{T, T} ::= SEQUENCE { a T }\nA ::= P{NULL, NULL}', 'P{T} ::= T\nA ::= P{A}', 'P{T} ::= T\nA ::= P{P}', 'A ::= P{NULL}\nP ::= INTEGER', 'A ::= P\nP{T} ::= SEQUENCE { a T }',
              'P{} ::= NULL\nA ::= P{}', 'P{T} ::= NULL\nA ::= P{}', 'P{T} ::= NULL\nA ::= P{NULL, NULL}', 'P{T} ::= SEQUENCE { COMPONENTS OF T }\nB ::= SEQUENCE { a NULL }\nA ::= P{B}', 'A ::= SEQUENCE { COMPONENTS OF INTEGER }', 'A ::= SEQUENCE { COMPONENTS OF CHOICE { a NULL } }', 'A ::= CHOICE { COMPONENTS OF B }',
              'A ::= SEQUENCE { COMPONENTS OF B }\nB ::= SEQUENCE { COMPONENTS OF A }', 'A ::= SEQUENCE { COMPONENTS OF SEQUENCE { a NULL } }', 'C ::= CLASS {}', 'C ::= CLASS { &Type }\nA ::= C', 'C ::= CLASS { &Type }\nA ::= C.&Type', 'C ::= CLASS { &v INTEGER }\nA ::= C.&v', 'C ::= CLASS { &v C.&v }\nA ::= C.&v',
              'C ::= CLASS { &v D.&v }\nD ::= CLASS { &v C.&v }\nA ::= C.&v', 'C ::= CLASS { &v INTEGER }\nA ::= C.&v.&w', 'A ::= INTEGER\nB ::= A.&v', 'C ::= CLASS { &v INTEGER }\nA ::= [5] C.&v', 'C ::= CLASS { &v INTEGER }\nA ::= SEQUENCE OF C.&v', 'C ::= CLASS { &v INTEGER }\nc C ::= { v 5 }', 'A ::= INSTANCE OF C\nC ::= TYPE-IDENTIFIER',
              'C ::= CLASS { &v INTEGER }\nA ::= C.&w', 'C ::= D\nD ::= CLASS { &v INTEGER }\nA ::= C.&v', 'A ::= C.&v\nC ::= C', 'a INTEGER ::= a', 'a OBJECT IDENTIFIER ::= { a 1 }', 'a OBJECT IDENTIFIER ::= { 1 b }\nb OBJECT IDENTIFIER ::= { a 1 }', 'a INTEGER ::= b\nb INTEGER ::= c\nc INTEGER ::= a', 'A ::= ENUMERATED { a(b) }\nb INTEGER ::= b',
              'A ::= INTEGER { a(b), c(a) }', 'A ::= INTEGER { a(b) }\nb A ::= a', 'a A ::= x\nA ::= ENUMERATED { x(a) }', 'A ::= [0] [1] [2] [3] INTEGER', 'A ::= [0] IMPLICIT CHOICE { a NULL }', 'A ::= Main.Main.B', 'A ::= Main.A', 'A ::= Undefined.A', 'a INTEGER ::= Main.b\nb INTEGER ::= 5', 'A ::= B.C.D',
              'A ::= SEQUENCE { a ANY, b ANY OPTIONAL, c ANY DEFINED BY a }', 'A ::= CHOICE { a ANY, b NULL }', 'A ::= SET { a ANY, b ANY }', 'A ::= SET OF ANY', 'A ::= ANY', 'A ::= [5] ANY', 'A ::= SEQUENCE { a CHOICE { b ANY } OPTIONAL, c NULL }', 'A ::= C { 5 }\nC { INTEGER : x } ::= INTEGER', 'A ::= SEQUENCE { a B DEFAULT 5 }\nB ::= SEQUENCE { a A }'):
        for e in ('AUTOMATIC ', 'IMPLICIT ', 'EXPLICIT '):
            out.append(('definition: ' + t[:60], M % (e, t)))
    two = 'One DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nIMPORTS %s FROM Two;\n%s\nEND\nTwo DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nIMPORTS %s FROM One;\n%s\nEND\n'
    for x in [('B', 'A ::= INTEGER', 'A', 'B ::= INTEGER'), ('B', 'A ::= SEQUENCE { b B OPTIONAL }', 'A', 'B ::= SEQUENCE { a A OPTIONAL }'), ('A', 'B ::= A', 'A', 'C ::= A'), ('A', 'B ::= A', 'B', 'A ::= B'), ('b', 'a INTEGER ::= b', 'a', 'b INTEGER ::= a'),
              ('b', 'A ::= SEQUENCE { x INTEGER DEFAULT b }', 'A', 'b INTEGER ::= 5'), ('P', 'A ::= P{INTEGER}', 'A', 'P{T} ::= SEQUENCE { a T }'), ('P{}', 'A ::= P{INTEGER}', 'A', 'P{T} ::= SEQUENCE { a T, b A }'), ('C', 'A ::= C.&v', 'A', 'C ::= CLASS { &v INTEGER }'),
              ('A', 'A ::= INTEGER', 'A', 'B ::= A'), ('a', 'A ::= NULL', 'a', 'B ::= NULL'), ('One', 'A ::= NULL', 'Two', 'B ::= NULL'), ('B', 'A ::= SEQUENCE { COMPONENTS OF B }', 'A', 'B ::= SEQUENCE { COMPONENTS OF A }'), ('B', 'A ::= CHOICE { b B, n NULL }', 'A', 'B ::= CHOICE { a A, m BOOLEAN }'),
              ('B', 'A ::= B.&v', 'A', 'B ::= CLASS { &v A }'), ('b', 'a OBJECT IDENTIFIER ::= { b 1 }', 'a', 'b OBJECT IDENTIFIER ::= { a 1 }'), ('B', 'A ::= ENUMERATED { x(y) }', 'A', 'B ::= INTEGER { y(5) }')]:
        out.append(('modules which import each other', two % x))
    out += [('imports itself', auto('IMPORTS A FROM Main;\nA ::= INTEGER')), ('imports itself, undefined', auto('IMPORTS B FROM Main;\nA ::= B')), ('imports itself, value', auto('IMPORTS b FROM Main;\nA ::= NULL')), ('imports nothing', auto('IMPORTS ;\nA ::= NULL')), ('exports nothing', auto('EXPORTS ;\nA ::= NULL')),
            ('imports twice', auto('IMPORTS B FROM Other B FROM Other;\nA ::= B') + 'Other DEFINITIONS ::= BEGIN\nB ::= NULL\nEND\n')]
    return out


def deep_texts(n):
    """nested n times"""
    return [('nested SEQUENCE', auto('A ::= ' + 'SEQUENCE { a ' * n + 'NULL' + ' }' * n)), ('nested CHOICE', auto('A ::= ' + 'CHOICE { a ' * n + 'NULL' + ' }' * n)), ('nested SEQUENCE OF', auto('A ::= ' + 'SEQUENCE OF ' * n + 'NULL')), ('nested tags', auto('A ::= ' + '[5] ' * n + 'NULL')),
            ('nested parentheses', auto('A ::= INTEGER ' + '(' * n + '5' + ')' * n)), ('nested value', auto('a INTEGER ::= ' + '{' * n + '5' + '}' * n)), ('nested choice value', auto('a A ::= ' + 'a : ' * n + '5\nA ::= NULL')), ('nested parameters', auto('P{T} ::= T\nA ::= ' + 'P{' * n + 'NULL' + '}' * n)),
            ('chain of types', auto('\n'.join('A%d ::= A%d' % (i, i + 1) for i in range(n)) + '\nA%d ::= NULL' % n)), ('chain of values', auto('\n'.join('a%d INTEGER ::= a%d' % (i, i + 1) for i in range(n)) + '\na%d INTEGER ::= 5' % n)), ('open braces', '{' * n), ('open brackets', auto('A ::= ' + '[' * n)),
            ('chain of components', auto('\n'.join('A%d ::= SEQUENCE { COMPONENTS OF A%d, c%d NULL }' % (i, i + 1, i) for i in range(min(n, 60))) + '\nA%d ::= SEQUENCE {}' % min(n, 60))), ('chain of tags', auto('\n'.join('A%d ::= [%d] A%d' % (i, i, i + 1) for i in range(n)) + '\nA%d ::= NULL' % n)),
            ('chain of arcs', auto('\n'.join('a%d OBJECT IDENTIFIER ::= { a%d 1 }' % (i, i + 1) for i in range(n)) + '\na%d OBJECT IDENTIFIER ::= { 1 2 }' % n)), ('many brackets', auto('A ::= SEQUENCE { ' + '[[ ' * n)), ('many comments', '/* */' * n), ('many hyphens', '--\n' * n), ('many symbols', '#' * n), ('many spaces', ' ' * n),
            ('chain of CHOICEs', auto('\n'.join('A%d ::= CHOICE { a A%d, b [%d] NULL }' % (i, i + 1, i) for i in range(n)) + '\nA%d ::= NULL' % n)), ('many imports', ''.join('M%d DEFINITIONS ::= BEGIN IMPORTS A FROM M%d; END\n' % (i, i + 1) for i in range(min(n, 300))) + 'M%d DEFINITIONS ::= BEGIN A ::= NULL END' % min(n, 300))]


def long_runs():
    """a valid module with a long run of what is skipped"""
    return [(label, auto('A ::= SEQUENCE { a' + piece * (n // len(piece)) + ' NULL }')) for label, piece, n in [
        ('spaces', ' ', 200000), ('tabs', '\t', 200000), ('newlines', '\n', 200000), ('carriage returns', '\r\n', 200000), ('line comments', '--\n', 300000), ('inline comments', '-- --', 300000), ('block comments', '/* */', 300000),
        ('mixed space', ' \t\n/* a\n */ -- b\n', 300000)]] + [('characters in a comment', auto('A ::= /* ' + 'comment\n' * 30000 + '*/ NULL')), ('characters in a line comment', auto('A ::= -- ' + 'c' * 200000 + '\nNULL')),
        ('characters in a string', auto('a UTF8String ::= "' + 'c' * 100000 + '"')), ('digits in a hex string', auto("a OCTET STRING ::= '" + 'AB' * 30000 + "'H")), ('letters in a name', auto('A ::= SEQUENCE { a' + 'b' * 100000 + ' NULL }'))]


def doubling():
    return [('components doubled', auto('\n'.join('A%d ::= SEQUENCE { COMPONENTS OF A%d, COMPONENTS OF A%d }' % (i, i + 1, i + 1) for i in range(40)) + '\nA40 ::= SEQUENCE { a NULL }')),
            ('parameters doubled', auto('\n'.join('P%d{T} ::= SEQUENCE { a P%d{T}, b P%d{T} }' % (i, i + 1, i + 1) for i in range(40)) + '\nP40{T} ::= SEQUENCE { a T }\nA ::= P0{NULL}')),
            ('arcs doubled', auto('\n'.join('a%d OBJECT IDENTIFIER ::= { 1 a%d a%d }' % (i, i + 1, i + 1) for i in range(40)) + '\na40 OBJECT IDENTIFIER ::= { 1 2 }')),
            ('CHOICEs doubled', M % ('IMPLICIT ', '\n'.join('A%d ::= CHOICE { a A%d, b A%d }' % (i, i + 1, i + 1) for i in range(40)) + '\nA40 ::= NULL'))]


class Case:
    def __init__(self, label, files, args=None, setup=None):
        self.label, self.files, self.args, self.setup = label, files, args, setup     # files: [(name, bytes)]


def enc(t):
    return t.encode('latin-1', 'replace') if isinstance(t, str) else t


def complete(text):
    """whether braces are balanced, outside strings and comments"""
    s = re.sub(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])\'|/\*.*?\*/|//[^\n]*', '', text, flags=re.S)
    return s.count('{') == s.count('}') and s.endswith('\n')


def cause(err):
    """a stable name of what went wrong"""
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err) or re.search(r'runtime error: ([^\n]*)', err) or re.search(r'Assertion `([^\']*)\' failed', err) or re.search(r"terminate called after throwing an instance of '([^']*)'", err)
    what = re.sub(r"0x[0-9a-f]+|[0-9]+|'[^']*'", '', m.group(1))[:60] if m else ''
    at = ''
    for f in re.findall(r'#\d+ 0x[0-9a-f]+ in (.*?) (?:/|\()', err):
        g = re.sub(r'\(.*|<.*', '', f)
        if not re.search(r'^(std::|absl::|__|void std|bool std|decltype|auto std|operator|raise|abort|malloc|free|mem)', g):
            at = g.split('::')[-1].strip()
            break
    return re.sub('[^A-Za-z]+', '-', what + ' ' + at).strip('-')


def builder(fuzz=False):
    """the compiler with its main renamed, linked to a driver that forks; and to libFuzzer"""
    flags = ['-O1'] + build.SAN + (['-fsanitize=fuzzer-no-link'] if fuzz else [])
    jobs, objs, d = build.compiler_jobs('compiler-many', flags)
    drv = os.path.join(d, 'driver.o')

    def job():
        ok, err = build.compile_one(os.path.join(build.CPP, 'compile_many.cpp'), drv, ['-O1'])
        if not ok:
            raise build.HarnessError('driver: ' + err[-2000:])
    target = os.path.join(d, 'target.o')

    def job2():
        ok, err = build.compile_one(os.path.join(build.CPP, 'fuzz_compiler.cpp'), target, flags)
        if not ok:
            raise build.HarnessError('fuzz target: ' + err[-2000:])
    build.parallel(jobs + [job] + ([job2] if fuzz else []))
    hit = 0
    for o in objs:
        r = build.sh(['nm', o])
        if re.search(r' T main$', r.stdout.decode(), re.M):
            r = build.sh(['objcopy', '--redefine-sym', 'main=compiler_main', o])
            if r.returncode:
                raise build.HarnessError('objcopy: ' + r.stderr.decode())
            hit += 1
    if hit != 1:
        raise build.HarnessError('main of the compiler not found')
    exe = build.link(objs + [drv], os.path.join(d, 'compile_many'), build.SAN)
    return exe, build.link(objs + [target], os.path.join(d, 'fuzz_compiler'), build.SAN + ['-fsanitize=fuzzer']) if fuzz else None


def fuzz(chk, exe, seeds, seconds, workers=None):
    """coverage-guided search for inputs; what it keeps, and what it says crashes or hangs, is judged like any other input"""
    words = ''
    for w in sorted(set(WORDS + PUNCT + NUMBERS + NAMES)):
        if w.strip() and len(w) < 60:
            words += '"%s"\n' % ''.join(c if c.isalnum() or c in ' {}[]()<>-_.,:;=|&@!^*+' else '\\x%02x' % (ord(c) & 255) for c in w)
    n, kept = build.fuzz(exe, [enc(t) for t in seeds], seconds, report.seed(), workers or build.NCPU, ['-max_len=4000', '-timeout=60'], words=words)
    chk.event('executions under libFuzzer', n)
    cases = []
    for found, b in kept:
        a, _, rest = b.partition(b'\x01')
        cases.append(Case('found by fuzzing' if found else 'kept by fuzzing', [('a.asn', a)] + ([('b.asn', rest)] if b'\x01' in b else [])))
    return cases


CPU, FSIZE = 60, 64 << 20
STACK = 64       # MB; the sanitizers make frames several times larger than they are in a usual build, which has 8


def run_cases(exe, cases, sink):
    """runs all, calls sink(case, exit code or None, signal, milliseconds, stderr text, {output: bytes})"""
    d = build.sub('inputs')
    shards = [[] for _ in range(build.NCPU)]
    for i, c in enumerate(cases):
        shards[i % build.NCPU].append((i, c))

    def shard(k):
        for at in range(0, len(shards[k]), 50):
            part = shards[k][at:at + 50]
            lines = []
            for i, c in part:
                cd = os.path.join(d, 'c%d' % i)
                os.makedirs(cd)
                for n, b in c.files:
                    with open(os.path.join(cd, n), 'wb') as f:
                        f.write(b)
                if c.setup:
                    c.setup(cd)
                args = c.args if c.args is not None else [n for n, _ in c.files] + ['gen']
                lines.append('\t'.join([str(i), cd, os.path.join(cd, 'err'), str(getattr(c, 'stack', STACK))] + args))
            lp = os.path.join(d, 'list%d' % k)
            with open(lp, 'w', errors='surrogateescape') as f:
                f.write('\n'.join(lines) + '\n')
            r = build.sh([exe, lp, str(CPU), str(FSIZE)], env={'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=4000', 'UBSAN_OPTIONS': 'exitcode=99:print_stacktrace=1'}, timeout=CPU * 60, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_STACK, (STACK << 20, STACK << 20)))
            got = {}
            for l in r.stdout.decode().split('\n'):
                f = l.split()
                if len(f) == 4:
                    got[int(f[0])] = (int(f[1]), int(f[2]), int(f[3]))
            if r.returncode or len(got) != len(part):
                raise build.HarnessError('the driver ended with %s after %d of %d cases: %s' % (r.returncode, len(got), len(part), r.stderr.decode(errors='replace')[-500:]))
            for i, c in part:
                cd = os.path.join(d, 'c%d' % i)
                with open(os.path.join(cd, 'err'), 'rb') as f:
                    err = f.read(200000).decode(errors='replace')
                outs = {}
                for n in OUTPUTS:
                    p = os.path.join(cd, n)
                    if os.path.isfile(p):
                        with open(p, 'rb') as f:
                            outs[n] = f.read()
                rc, sig, ms = got[i]
                sink(c, rc if not sig else None, sig, ms, err, outs)
                build.shutil.rmtree(cd, True)
    build.parallel([lambda k=k: shard(k) for k in range(build.NCPU)])


def command_lines():
    good = [('a.asn', enc(auto('A ::= INTEGER')))]
    two = good + [('b.asn', enc(auto('IMPORTS A FROM Main;\nB ::= A').replace('Main D', 'Second D')))]
    out = []

    def add(label, files, args, expect, setup=None):
        c = Case('command line: ' + label, files, args, setup)
        c.expect = expect
        out.append(c)
    add('two files', two, ['a.asn', 'b.asn', 'gen'], 'ok')
    add('two files, dependent first', two, ['b.asn', 'a.asn', 'gen'], 'ok')
    add('nothing', [], [], 'fail')
    add('input only', good, ['a.asn'], 'fail')
    add('missing input', good, ['b.asn', 'gen'], 'fail')
    add('missing second input', good, ['a.asn', 'b.asn', 'gen'], 'fail')
    add('input twice', good, ['a.asn', 'a.asn', 'gen'], 'fail')
    add('directory as input', good, ['.', 'gen'], 'fail')
    add('directory as second input', good, ['a.asn', '/', 'gen'], 'fail')
    add('empty name as input', good, ['', 'gen'], 'fail')
    add('empty file as input', [('a.asn', b'')], ['a.asn', 'gen'], None)
    add('device as input', good, ['/dev/null', 'gen'], None)
    add('output in a directory which does not exist', good, ['a.asn', 'none/gen'], 'fail')
    add('output in a file', good, ['a.asn', 'a.asn/gen'], 'fail')
    add('output with a path', good, ['a.asn', './gen'], 'ok')
    add('long output name', good, ['a.asn', 'x' * 300], 'fail')
    add('long input name', good, ['x' * 5000, 'gen'], 'fail')
    add('format characters', good, ['%s%n%d', 'gen'], 'fail')
    add('500 inputs', [('i%d.asn' % i, enc(auto('A ::= INTEGER').replace('Main', 'M%d' % i))) for i in range(500)], None, 'ok')
    for n in OUTPUTS:
        add('output which cannot be created: ' + n, good, ['a.asn', 'gen'], 'fail', lambda d, n=n: os.mkdir(os.path.join(d, n)))
        add('output which cannot be written: ' + n, good, ['a.asn', 'gen'], 'fail', lambda d, n=n: os.symlink('/dev/full', os.path.join(d, n)))
    big = [('a.asn', enc(auto('\n'.join('A%d ::= SEQUENCE { a INTEGER, b SET OF INTEGER, c CHOICE { d INTEGER, e NULL } }' % i for i in range(400)))))]
    for n in OUTPUTS:
        add('large output which cannot be written: ' + n, big, ['a.asn', 'gen'], 'fail', lambda d, n=n: os.symlink('/dev/full', os.path.join(d, n)))
    return out


def c18(chk):
    chk.rule = 'distinct inputs or command lines that the compiler, under ASan and UBSan, was started with'
    rng = rng_for('C18')
    pool = list(SEEDS)
    tf = os.path.join(build.REPO, 'testfiles')
    for n in sorted(os.listdir(tf)) if os.path.isdir(tf) else []:
        p = os.path.join(tf, n)
        if os.path.isfile(p) and os.path.getsize(p) < 8000:
            with open(p, encoding='latin-1') as f:
                pool.append(f.read())
    pool += [schema.module_text(m, schema.WildStyle(rng) if rng.random() < .2 else schema.PLAIN) for s in schemas(rng, 30) for m in s]
    pool = [t for t in pool if len(t) < 8000]
    cases = command_lines()
    for label, t in corner_texts():
        cases.append(Case(label, [('a.asn', enc(t))]))
    for n in (10, 100, 300):
        for label, t in deep_texts(n):
            if n > 100 and label in ('chain of tags', 'chain of CHOICEs'):
                continue        # these take time in the order of n cubed
            cases.append(Case('%s, %d times' % (label, n), [('a.asn', enc(t))]))
    for label, t in deep_texts(1000):
        if label == 'nested CHOICE':
            cases.append(Case('very deep', [('a.asn', enc(t))]))
            cases[-1].stack = 8
    for label, t in long_runs():
        cases.append(Case('long run of ' + label, [('a.asn', enc(t))]))
        cases[-1].expect = 'ok'
    for label, t in doubling():
        cases.append(Case(label, [('a.asn', enc(t))]))
    whole = list(pool)
    corners = [t for _, t in corner_texts() if len(t) < 2000]
    for i in range(scale(6000, 90000)):
        k = rng.randrange(10)
        if k < 4:
            cases.append(Case('random module', [('a.asn', enc(random_module(rng)))]))
        elif k < 7:
            cases.append(Case('tokens changed', [('a.asn', enc(mutate_tokens(rng, rng.choice(whole if k < 6 else corners), pool)))]))
        elif k == 7:
            cases.append(Case('octets changed', [('a.asn', mutate_bytes(rng, enc(rng.choice(whole))))]))
        elif k == 8:
            cases.append(Case('random modules', [('a.asn', enc(random_module(rng, 'Main', ['Other']))), ('b.asn', enc(random_module(rng, 'Other', rng.choice([[], ['Main'], ['Third']]))))]))
        else:
            cases.append(Case('random tokens', [('a.asn', enc(auto(' '.join(any_token(rng) for _ in range(rng.randint(1, 30))))))]))
    if chk.replaying is not None:
        r = chk.replaying
        c = [c for c in command_lines() if c.label == r['label']]
        cases = c or [Case(r['label'], [(n, enc(t)) for n, t in r['files']], r['args'])]
    exe, fuzzer = builder(fuzz=bool(scale(0, 1)) and chk.replaying is None)
    if fuzzer:
        cases += fuzz(chk, fuzzer, [t for t in pool if len(t) < 4000], int(os.environ.get('VERIF_FUZZ', '240')))

    def sink(c, rc, sig, ms, err, outs):
        shown = b'\n'.join(b for _, b in c.files)
        chk.case(nontrivial=(shown, tuple(c.args or ())))
        rep = {'label': c.label, 'files': [[n, b.decode('latin-1')] for n, b in c.files[:3]], 'args': c.args}

        def v(key, what):
            chk.violation(key, '%s: %s; input: %r' % (c.label, what, shown[:1500]), rep)
        chk.event('inputs: ' + re.sub(' of .*|[:,].*', '', c.label))
        whole_outputs = {n: b for n, b in outs.items() if b}
        expect = getattr(c, 'expect', None)
        if sig in (24, 9) or ms > CPU * 1000:
            v('hang:' + (re.sub('[^A-Za-z]+', '-', c.label)), 'still running after %d s of CPU time' % (ms // 1000))
        elif sig or rc in (99, 250) or 'AddressSanitizer' in err or 'runtime error:' in err:
            m = re.search(r'(ERROR: AddressSanitizer|runtime error|Assertion|terminate called).*', err, re.S)
            k = cause(err)
            if 'stack-overflow' in err:
                k = 'stack-overflow-' + re.sub('[^A-Za-z]+', '-', c.label).strip('-')
            v('crash:' + (k or 'signal %d' % sig), 'ended by signal %d, status %s: %s' % (sig, rc, (m.group(0) if m else err)[-1500 if not m else 0:][:1500]))
        elif rc == 0:
            chk.event('compiled')
            if expect == 'fail':
                v('reported-success:' + c.label, 'exit status 0 although it cannot have succeeded')
            elif len(whole_outputs) != len(OUTPUTS):
                v('success-without-output', 'exit status 0, but the output holds only %s' % sorted(whole_outputs))
            elif re.search('syntax error|Compilation error|Could not', err):
                v('success-with-error', 'exit status 0, but it says ' + err[:300])
            else:
                for n, b in outs.items():
                    if not complete(b.decode('latin-1')):
                        v('incomplete-output', 'exit status 0, but %s is not complete: ...%r' % (n, b[-200:]))
        else:
            chk.event('refused')
            if expect == 'ok':
                v('reported-failure:' + c.label, 'refused: ' + err[-300:])
            elif not err.strip():
                v('silent', 'refused with status %d but no message' % rc)
            elif whole_outputs and expect is None:
                v('output-after-failure', 'refused, but left ' + ', '.join(sorted(whole_outputs)))
            if chk.count % 997 == 5:
                chk.sample('%s -> %s' % (c.label, err.strip()[-200:]))
    run_cases(exe, cases, sink)
    chk.minimum = 1 if chk.replaying is not None else 3000
    chk.assumptions.append('a compilation is taken to hang when it uses %d s of CPU time under the sanitizers; leaks are not looked for' % CPU)
