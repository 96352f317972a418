"""fixit(file, [(old, new)...], commit message, property, log): one fix commit + its record.
With FIX_ROOT set the edits are only applied there (to try them on a copy)."""
import os, subprocess
ROOT = os.environ.get('FIX_ROOT')
def fixit(f, subs, msg, pid, log):
    p = (ROOT or '/repo') + '/pyebsdindex/' + f
    s = open(p).read()
    for a, b in subs:
        assert s.count(a) == 1, (s.count(a), a)
        s = s.replace(a, b)
    open(p, 'w').write(s)
    if ROOT:
        return
    subprocess.check_call(['git', '-C', '/repo', 'commit', '-qam', msg])
    h = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short', 'HEAD'], text=True).strip()
    open('/verif/known_findings.txt', 'a').write('fixed: property=%s %s %s\n' % (pid, h, log))
    print(h, msg)
