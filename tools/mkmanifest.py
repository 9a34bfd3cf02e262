#!/usr/bin/env python3
"""regenerates /verif/MANIFEST.json from the table below and the rules that exist"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from check import rules
T = {
 'C01': 'abstract interpretation of constructors: table of written type codes per container, compared with decoder dispatch',
 'C02': 'abstract interpretation: encoder field table vs decoder field table, inverse-conversion matching',
 'C03': 'path-sensitive must-check analysis of decoder outcomes (type guard dominates every returned object)',
 'C04': 'loop progress (ranking) analysis and call-graph recursion analysis of decoders',
 'C05': 'path-sensitive must-check analysis: length guards dominate slices and returned objects',
 'C06': 'byte-lane/width analysis of integer encoders with interval facts; lint of byte-order conversions',
 'C07': 'typestate of decoder loop variables (unset before set) per field code',
 'C08': 'value provenance of packet constructors and header (de)serialisation layout comparison',
 'C09': 'value provenance of hash and signature inputs over all signing and verifying call sites',
 'C10': 'abstract interpretation of __eq__/__hash__ against the encoding',
 'C11': 'escape and effect analysis: in-place mutation and attribute stores outside construction',
 'C12': 'value provenance and rounding-form analysis of timestamp conversions',
 'K01': 'taint/provenance analysis of nonces and initialisation vectors to the random source',
 'K02': 'value provenance comparison of encryption and decryption call arguments',
 'K03': 'path-sensitive fail-closed analysis of decryption outcomes',
 'K04': 'path-sensitive fail-closed analysis of verifier outcomes',
 'K05': 'layout and label provenance comparison of wrap and unwrap',
 'K06': 'value provenance of cipher keys through the key-derivation function; dispatch table analysis',
 'K07': 'information-flow (taint) analysis from secrets to output sinks',
 'K08': 'provenance of stored and returned entries of key stores and caches; exception-path effects',
 'F01': 'must-pass (dominance) analysis from packet sources to uses across the call graph',
 'F02': 'path-sensitive must-check analysis of packet source outcomes',
 'F03': 'iteration-structure and provenance analysis of the traversal',
 'F04': 'provenance and ordering analysis: pointer hashes come from packets handed to the sink',
 'F05': 'provenance of size reservations and dominance of size checks before output',
 'F06': 'symbolic accounting of segment ranges over all paths of the tree builder',
 'F07': 'path-sensitive analysis of manifest construction under encryptor/no encryptor',
 'F08': 'exhaustiveness analysis of dispatchers over class families and enumerations',
 'F09': 'comparison of writer and reader name construction terms',
 'F10': 'provenance of option values to packet fields',
 'F11': 'provenance and path analysis of size annotations',
 'F12': 'taint/provenance analysis of file-system paths',
 'F13': 'argument-parser table vs option uses; provenance of option values',
 'C13': 'provenance of creation arguments into fields; kind facts of predicates against creation functions',
 'F15': 'must-reach and argument provenance of stored packets to file or table, per path',
 'F14': 'name, attribute, call-signature and definite-assignment analysis of all functions and paths',
}
NOTE = ('Sound for the paths the abstract interpreter evaluates on the current source; obligations it cannot decide are listed in the '
        'evidence as undecided and raise no alarm. Trusts the semantics given to Python built-ins and third-party calls.')
NA = {
 'N01': 'Byte identity of a whole write/read run quantifies over file contents, packet sizes and tree shapes computed at run time; '
        'the static parts it rests on are decided as C02, F03, F04, F06, F09, F11.',
 'N02': 'Minimality of a numeric search over floating-point and integer tree parameters is an arithmetic fact about run-time '
        'quantities; no sound static argument in reach bounds it.',
 'N03': 'Uniqueness and consecutiveness of identifiers depends on the arithmetic of tree position for every depth and degree; '
        'deciding it needs a proof about run-time quantities, not a static rule.',
}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = sorted(rules())
props = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; sys.exit(0)"',
     'checks': [{'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                 'evidence_file': 'evidence/%s.json' % i, 'technique': 'static analysis: ' + T[i], 'level': 'other',
                 'level_note': NOTE} for i in have],
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'check not built yet')} for i in props if i not in have]}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(have), 'checks', [i for i in props if i not in have])
