"""Level and assumptions of each check (MANIFEST.json and evidence are written from this)."""
BASE = ['TLC 1.8 and the TLA+ semantics of spec/*.tla are trusted',
        'observation and construction code in harness/ylib.py is trusted to report what the public API returns',
        'behaviours are explored up to the sizes stated in DESIGN.md; nothing is claimed beyond them']
STUB = ['morphological dictionaries are replaced by explicit tables, except where real pymorphy2 is used as stated in DESIGN.md']


def L(note, extra=()):
    return dict(level='model_checking', note=note, assumptions=BASE + list(extra))


LEVELS = {}
for i in range(1, 30):
    LEVELS['C%02d' % i] = L('TLC checks the specification; every explored behaviour of the real code is accepted or rejected by TLC against it', STUB)
