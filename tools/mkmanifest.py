#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/plan.py (run: python3 tools/mkmanifest.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from plan import PLAN
T = {
 'C01': ('TLA+ (TLC): election model checked; cast ballots of the real code validated as behaviours of ElectionTrace', ''),
 'C02': ('TLA+ (TLC): adversary model checked; TLC-generated forgeries replayed into the real collector and judged by ElectionTrace', ''),
 'C03': ('TLA+ (TLC): splice model checked; every recombination TLC enumerates and every component change replayed into the real collector', ''),
 'C04': ('TLA+ (TLC): substituted parameters replayed into the real parser and collector, judged by ElectionTrace', ''),
 'C05': ('TLA+ (TLC): every prover message of the real code validated against the RangeProof specification', ''),
 'C06': ('TLA+ (TLC): the equations the real verifier evaluates and its verdicts on forged transcripts validated against RangeProof', ''),
 'C07': ('TLA+ (TLC): prover messages, verifier equation and verdicts validated against InnerProduct', ''),
 'C08': ('TLA+ (TLC): aggregated proofs of the real code validated message by message against RangeProof', ''),
 'C09': ('TLA+ (TLC): prover messages, verifier relations and verdicts validated against EqProof', ''),
 'C10': ('TLA+ (TLC): recorded responses, aborts and verdicts at the window edges validated against EqProof', ''),
 'C11': ('TLA+ (TLC): recorded challenge dependencies of the real verifiers validated against the Transcript specification', ''),
 'C12': ('TLA+ (TLC): recorded outcomes of both setups validated against the Setup and EqProof specifications', ''),
 'C13': ('TLA+ (TLC): behaviours of the abstract group machine generated by TLC and replayed into every group implementation', ''),
 'C14': ('TLA+ (TLC): recorded encodings and decodings validated against the Codec specification (membership decided in TLA+)', ''),
 'C15': ('TLA+ (TLC): document damages enumerated by TLC and replayed into the real parsers and verifiers', ''),
 'C16': ('TLA+ (TLC): blinding values of recorded proofs validated against the Hiding specification', ''),
 'C17': ('TLA+ (TLC): session histories generated by TLC replayed, sequentially and concurrently, with state fingerprints validated', ''),
 'C18': ('TLA+ (TLC): recorded ciphertexts, combinations and decryptions validated against the ElGamal specification', ''),
 'C20': ('TLA+ (TLC): coherence condition model checked; the parameters the real setup yields for every group validated against it', ''),
 'C19': ('TLA+ (TLC): recorded calls validated against exact arithmetic in the Arithmetic specification', ''),
}
NOTE = ('Exhaustive on the specification within its stated constants; on the code, every execution recorded in the run is a behaviour of the '
        'specification, for the inputs in DESIGN.md. Trusts TLC, the Java evaluation of big integers (self-tested), the symbolic group of the harness '
        'and, for soundness, the algebraic group model and hash functions as random oracles.')
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 bin/setup.py',
         checks=[dict(property=i, quick_cmd='python3 bin/check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 bin/check.py ' + i,
                      technique=T[i][0], level='model_checking', level_note=NOTE + T[i][1]) for i in ids if i in PLAN],
         not_applicable=[dict(property=i, reason='check under construction') for i in ids if i not in PLAN],
         notes='No hooks in /repo: the harness is added with go test -overlay.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
