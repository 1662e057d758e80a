"""names of encoded functions for the evidence files"""
import re
import subprocess


def demangle(ns):
    for tool in ('c++filt', 'llvm-cxxfilt-18', 'llvm-cxxfilt'):
        try:
            p = subprocess.run([tool], input='\n'.join(ns) + '\n', stdout=subprocess.PIPE, text=True, timeout=60)
            out = p.stdout.split('\n')[:len(ns)]
            if len(out) == len(ns):
                return out
        except (OSError, subprocess.SubprocessError):
            pass
    return list(ns)


def short(d):
    d = re.sub(r'\[[0-9a-f]{8,}\]', '', d)
    d = re.sub(r'vharness::', '', d)
    return d


def repo_functions(img, fns):
    """functions which exist as functions of their own in the encoded module (others are inlined into them)"""
    mine, deps = set(), set()
    for d in demangle(sorted(fns)):
        d = short(d)
        m = re.match(r'[<&]*(?:mut )?(\w+)::', d)
        c = m.group(1) if m else ''
        if c == 'orx_concurrent_vec':
            mine.add(d[:160])
        elif c.startswith('orx_'):
            deps.add(re.sub(r'<.*', '', d)[:120] if not d.startswith('<') else d[:120])
    return sorted(mine), sorted(deps)
