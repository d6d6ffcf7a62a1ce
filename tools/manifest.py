#!/usr/bin/env python3
"""Development aid: writes MANIFEST.json (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, V)
from lib.checks import CHECKS
TECH = {
 'C01': ('ASan, UBSan, memcheck and CPU-limit monitored decoding of mutated and hostile inputs', 'Detects only what the sanitizers and the hang limit see on the inputs explored.'),
 'C02': ('runtime monitor of every buffer size around encoded_length, under ASan', 'Sampled values; buffers exhaustively sized for short encodings.'),
 'C03': ('runtime comparison of encodings with an independent X.690 reference encoder', 'Sampled values, taggings and tag numbers; trusts lib/ber.py and lib/model.py.'),
 'C04': ('runtime comparison of decoded values with an independent X.690 reference decoder', 'Sampled valid encodings; trusts the reference decoder.'),
 'C05': ('runtime monitor: nothing the reference decoder refuses is accepted', 'Sampled mutations, truncations and wrong identifiers.'),
 'C06': ('runtime comparison of generated encoders with an independent X.680/X.690 reference', 'Systematic and random schemas in all four tagging environments; sampled values.'),
 'C07': ('runtime comparison of generated decoders with an independent X.680/X.690 reference', 'Systematic and random schemas; sampled valid encodings in all variants BER allows.'),
 'C08': ('runtime monitor: generated decoders accept nothing the reference decoder refuses', 'Systematic and random schemas; sampled mutations.'),
 'C09': ('runtime comparison with exact rational arithmetic', 'All exponents and boundary mantissas plus random samples.'),
 'C10': ('runtime comparison of every accessor with a reference model', 'Sampled arc lists and contents.'),
 'C11': ('runtime comparison with an independent calendar', 'Sampled instants and texts; two time zones. Known deviations are listed in known_findings.jsonl.'),
 'C12': ('differential runtime monitor: used object against fresh object', 'Sampled histories of up to seven steps.'),
 'C13': ('runtime value-semantics monitor under ASan', 'Sampled pairs of values through a fixed set of copy, move and ownership experiments.'),
 'C14': ('object-lifetime registry, leak counter and ASan watching histories of operations, against a model of what is held', 'Random histories on the library\'s own variants, choices and optionals, with throwing element constructors.'),
 'C15': ('runtime comparison of views and iterators with an independent TLV parser, over exactly sized memory under ASan', 'Exhaustive up to two octets (three in thorough), systematic and random beyond.'),
 'C16': ('runtime comparison of container histories with a byte-string model, under ASan', 'Random scripts of up to 25 operations on pairs of containers.'),
 'C17': ('the sanitized viewer and printers observed on hostile files, inputs and values, output parsed by an independent JSON reader and compared with an independent reading of the input', 'Files and values are sampled; classic locale.'),
 'C22': ('ThreadSanitizer plus result comparison over threads on own objects, shared inputs and shared constant objects', 'Interleavings are sampled, not controlled; the C++ and abseil libraries are not instrumented.'),
 'C21': ('runtime monitor of compiled generated code: constants, defaults and their effect on encodings against the values the schema text denotes', 'Random value notations of every supported form, compiled and run; integers within 64 bits.'),
 'C18': ('the compiler under ASan and UBSan, forked per input, on mutated, random, hostile and deeply nested schema text, files and command lines', 'Sampled inputs of up to some tens of kilobytes; nesting to 300 levels.'),
 'C23': ('the sanitized compiler observed on ill-formed mutations of well-formed schemas: exit status, diagnostics, output files', 'Violations are planted one at a time in templates and random schemas; only the kinds of ill-formedness listed in the property.'),
 'C19': ('runtime monitor of the compiler and of C++ compilers over a schema corpus', 'Systematic, random and adversarially named schemas; g++ and clang++ decide validity of the generated C++.'),
 'C20': ('differential runtime monitor: schema against its rewritten equivalents', 'Random schemas under the rewrites of lib/variants.py; sampled values.'),
}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks observe the public API of the unchanged sources', 'source_commits': []}, 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CHECKS and i in TECH:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i,
                            'technique': TECH[i][0], 'level': 'exploration', 'level_note': TECH[i][1]})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'not claimed yet: check under construction'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
