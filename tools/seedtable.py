"""
The table of planted changes for DESIGN.md: python3 tools/seedtable.py rewrites the part behind "## Planted changes".
"""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
MISSED = {'cli-name-strip', 'data-image', 'data-image-rest', 'link-text-case', 'unknown-sorted', 'builtin-macro-verbose', 'size-rest', 'splitlines', 'blank-line-spaces', 'int-base', 'md-ol-start', 'rest-h7',
          'debug-long-src', 'rest-settings-leak', 'dir-lists'}


def main():
    lines = ['## Planted changes', '', 'Every row is a change in seeded/; the check of its property catches it (exit 1). "(first missed)": the change was missed when it was planted, and the workload or the oracle was extended.', '',
             '| change | caught by | needs |', '|---|---|---|']
    for d in sorted((ROOT / 'seeded').iterdir()):
        m = json.loads((d / 'meta.json').read_text())
        lines.append(f'| {d.name} | {m["property"]}{" (first missed)" if d.name in MISSED else ""} | {m["needs"]} |'.replace('||', '\\|\\|'))
    path = ROOT / 'DESIGN.md'
    text = path.read_text()
    head, _, tail = text.partition('## Planted changes')
    rest = tail[tail.index('\n## '):] if '\n## ' in tail else ''
    path.write_text(head + '\n'.join(lines) + '\n' + rest)


if __name__ == '__main__':
    main()
