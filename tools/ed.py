"""Helper for seed edits: sub(file, old, new, nth=None)"""
def sub(f, old, new, nth=None):
    s = open(f).read()
    n = s.count(old)
    if nth is None:
        assert n == 1, (f, n, old)
        s = s.replace(old, new)
    else:
        parts = s.split(old)
        assert len(parts) > nth + 1, (n, nth)
        s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
    open(f, 'w').write(s)
