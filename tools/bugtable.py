#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from /verif/seeded/*/meta.json."""
import glob
import json
import os

MISSED = {
    'c05-joiner': 'part "characters" of C05',
    'c08-case': 'names that programs take for one another',
    'c09-order': 'dictionary of the sources\' literals',
    'c01-many-members': 'large documents of each kind in turn, more of them',
    'c05-array-require': 'part "words"',
    'c15-count': 'the count of objects in the accounting manager',
    'c19-local-align': 'part "managers"',
    'c15-clone-from': 'overwriting in place with `clone_from`',
    'c17-odd-lists': 'part "long-lists"',
    'c04-wrapped-exponent': 'fractions and exponents of hundreds of thousands of zeros and more',
    'c11-shift-digits': 'shifts of up to sixteen million',
    'c12-shift-digits': 'shifts of up to sixteen million',
    'c21-long': 'something among many plain characters',
    'c05-file-mark': 'part "texts of files"',
    'c05-required-end': 'part "texts of files"',
    'c08-module-hashbang': 'broken files with phrases at either end',
    'c05-hashbang': 'phrases of other languages at every place, the start included',
    'c10-output-dot': 'output names composed of pieces of extensions and directories',
    'c02-failing-writer': 'part "writer"',
    'c03-failing-writer': 'part "writer"',
    'c07-equal': 'part "equality"',
    'c16-refused': 'part "no-memory"',
    'c19-unfinished': 'part "interrupted"',
    'c03-shared-depth': 'sharing behind very many parts, forests',
}


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    print('| id | caught by | breaks | needs |')
    print('|---|---|---|---|')
    for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
        name = f.split('/')[-2]
        m = json.load(open(f))
        missed = ' \\* (%s)' % MISSED[name] if name in MISSED else ''
        print('| %s%s | %s | %s | %s |' % (name, missed, m['property'], m['what_it_breaks'], m['needs']))


if __name__ == '__main__':
    main()
