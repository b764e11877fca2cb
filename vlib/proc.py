"""Runs a batch driver under sanitizers and judges how it ended."""
import os, subprocess, tempfile
from . import common, srv


def run(c, exe, args, timeout=120, what='', env=None, cwd=None):
    """Returns (stdout lines, stderr text) or None after reporting a violation."""
    e = dict(os.environ)
    e.update(srv.SAN_ENV)
    e.update(env or {})
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen([exe] + args, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=e, cwd=cwd)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 'hang'
        fo.seek(0)
        fe.seek(0)
        out, err = fo.read(), fe.read().decode('latin1')
    what = what or ' '.join(args)
    if 'AddressSanitizer' in err or 'runtime error:' in err or 'ThreadSanitizer' in err or ('Assertion' in err and rc != 0):
        for rep in srv.split_reports(err):
            c.violation('sanitizer:' + common.sanitizer_key(rep), 'sanitizer report (%s):\n%s' % (what, common.sanitizer_report(rep)))
        return None
    if rc == 'hang':
        c.violation('hang', 'driver did not end within %d s (%s)' % (timeout, what))
        return None
    if rc != 0:
        c.violation('died:%s:%s' % (rc, common.sanitizer_key(err)), 'driver ended with %s (%s): %s' % (rc, what, err[-1200:]))
        return None
    return out, err
