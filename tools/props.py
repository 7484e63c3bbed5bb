"""
The properties and checks of this framework: writes properties.jsonl, MANIFEST.json and the "fixed" list of
known_findings.json. Only properties with a check in vf/checks (or in NOT_APPLICABLE) are written.

    python tools/props.py
"""
import json
import re
import subprocess
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PROPS = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, technique, note, level='exploration', state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quantifier=quantifier, why=why, files=files, mechanism=mechanism,
                      technique=technique, note=note, level=level, state=state, observe=observe))


PARSE = ['creole/parser/creol2html_parser.py', 'creole/parser/creol2html_rules.py']
EMIT = ['creole/emitter/creol2html_emitter.py']
HTML = ['creole/parser/html_parser.py', 'creole/html_tools/strip_html.py', 'creole/shared/base_emitter.py']
H2 = ['creole/emitter/html2creole_emitter.py', 'creole/emitter/html2rest_emitter.py', 'creole/emitter/html2textile_emitter.py', 'creole/emitter/html2markdown_emitter.py']
INIT = ['creole/__init__.py']

exec((ROOT / 'tools' / 'statements.py').read_text(encoding='utf-8'))


def main():
    have = {p.stem.upper() for p in (ROOT / 'vf' / 'checks').glob('c*.py')}
    claimed = [p for p in PROPS if p['id'] in have]
    lines, checks = [], []
    for p in PROPS:
        if p not in claimed and p['id'] not in NOT_APPLICABLE:
            continue
        assert len(p['title']) <= 80, p['title']
        sentences = re.findall(r'[.!?](?:\s|$)', re.sub(r'e\.g\.|i\.e\.', '', p['statement']))
        assert len(sentences) <= 3, (p['id'], len(sentences))
        anchors = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}
        if p['state']:
            anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        anchors['observe_at'] = list(p['observe']) or ['arguments and results of the public functions']
        anchors['hook_needed'] = None
        lines.append(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                 'quantifier': {'over': p['over'], 'text': p['quantifier']}, 'why_tests_cant': p['why'],
                                 'anchors': anchors}, ensure_ascii=False))
        if p in claimed:
            checks.append({'property': p['id'], 'quick_cmd': f'./run.sh {p["id"]} --tier quick', 'thorough_cmd': f'./run.sh {p["id"]} --tier thorough',
                           'evidence_file': f'evidence/{p["id"]}.json', 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    (ROOT / 'properties.jsonl').write_text('\n'.join(lines) + '\n', encoding='utf-8')
    manifest = {'version': 1, 'setup_cmd': './run.sh --setup',
                'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
                'notes': 'No hooks: all monitors observe the public functions, the command line and the file system from outside (stubs, recording '
                         'macros, audit hooks and strace-free fault injection in forked processes). Exit 3 = inconclusive.'}
    (ROOT / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1, ensure_ascii=False) + '\n', encoding='utf-8')

    # known findings: keep "known", rebuild "fixed" from the log of /repo and the table
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], capture_output=True, text=True, check=True).stdout.splitlines()
    path = ROOT / 'known_findings.json'
    data = json.loads(path.read_text(encoding='utf-8'))
    fixes = [ln for ln in log if re.match(r'\w+ fix:', ln)]
    if fixes:
        fixed, missing = [], []
        for ln in fixes:
            h, subject = ln.split(' ', 1)
            subject = subject.removeprefix('fix: ')
            ids = [pid for start, pid in FIXED if subject.startswith(start)]
            if not ids:
                missing.append(subject)
                continue
            fixed += [f'fixed: property={pid} {h} {subject}' for pid in ids[0].split()]
        assert not missing, '\n'.join(missing)
        data['fixed'] = fixed
    path.write_text(json.dumps(data, indent=1, ensure_ascii=False) + '\n', encoding='utf-8')
    print(len(lines), 'properties', len(checks), 'checks', len(data['fixed']), 'fixed')


if __name__ == '__main__':
    main()
