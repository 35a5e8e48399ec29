"""Refresh the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    rows = ['| property | change | what it breaks |', '|---|---|---|']
    found = []
    for f in glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json')):
        with open(f) as h:
            m = json.load(h)
        found.append((m['property'], os.path.basename(os.path.dirname(f)), m['what_it_breaks']))
    for p, n, w in sorted(found):
        rows.append('| %s | %s | %s |' % (p, n, ' '.join(w.split()).replace('|', '/')))
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as h:
        s = h.read()
    a, b = s.index('<!-- matrix -->') + len('<!-- matrix -->'), s.index('<!-- /matrix -->')
    with open(path, 'w') as h:
        h.write(s[:a] + '\n' + '\n'.join(rows) + '\n' + s[b:])
    print(len(found), 'planted bugs')


if __name__ == '__main__':
    main()
