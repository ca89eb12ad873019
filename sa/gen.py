"""writes /verif/properties.jsonl and /verif/MANIFEST.json from meta.py and the specs present"""
import json, os
import meta
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TECH = 'abstract interpretation of the source to gated value graphs, compared with a reference graph'
NOTE = ('Every execution of the named entry points over typed opaque inputs is summarised by a value graph built from the current source; '
        'loops are closed by induction. Arithmetic is over the rationals/reals (no rounding), library calls by their documented meaning; an obligation the '
        'domain cannot decide is reported undecided and raises no alarm.')


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in sorted(meta.P):
            f.write(json.dumps(meta.P[p]) + '\n')
    checks, na = [], []
    for p in sorted(meta.P):
        if p in meta.NA:
            na.append(dict(property=p, reason=meta.NA[p]))
        elif os.path.exists(os.path.join(HERE, 'specs', p.lower() + '.py')) and p not in meta.PENDING:
            checks.append(dict(property=p, quick_cmd=f'python3 sa/run.py {p}', thorough_cmd=f'python3 sa/run.py {p} --thorough',
                               technique=meta.TECHNIQUE.get(p, TECH), level='other', level_note=meta.NOTES.get(p, NOTE)))
        else:
            na.append(dict(property=p, reason='not yet claimed: the check for it is under construction'))
    man = dict(version=1, setup_cmd='python3 sa/selftest.py', checks=checks, not_applicable=na)
    json.dump(man, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)


main()
