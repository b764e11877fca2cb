"""Scratch directory trees for the static server checks."""
import os, shutil, tempfile


class Tree:
    """top/ holds the served root and, around it, files that must never be served."""
    INSIDE = ['index.html', 'page.html', 'a/index.html', 'a/a/index.htm', 'a/b.txt', 'a/a/c.css', 'noext', 'a/noext', 'dir.d/index.html', '..x', 'a/..y', 'a/..z/index.html', 'x../index.html', 'x..', '...', 'a/.../index.html',
              'sp ace.txt', '%2e%2e/index.html', 'root/index.html', 'root/page.html', '.hid', '.dot/index.html', 'a\\b.txt', 'é.txt', '~/index.html', 'etc/hosts.txt']
    OUTSIDE = ['secret.txt', 'index.html', 'index.htm', 'page.html', 'secret', 'a/index.html', 'a/b.txt', 'a/a/index.htm', 'noext', 'a/noext', 'root2/index.html', 'rootsecret', 'rootsecret.txt', 'root.html', 'sib/index.html', 'sib/secret.txt', 'x../index.html',
               '.../index.html', '..x', 'etc/passwd', 'roo/index.html', 'rootindex.html', '.hid']

    def __init__(self):
        self.base = tempfile.mkdtemp(prefix='lamtree')
        self.top = os.path.join(self.base, 'w', 'top')
        self.root = os.path.join(self.top, 'root')
        self.inside, self.outside = {}, {}
        for rel in self.INSIDE:
            if rel == 'x..':
                continue
            self._put(self.root, rel, b'IN:' + rel.encode(), self.inside)
        for rel in self.OUTSIDE:
            self._put(self.top, rel, b'OUT!top/' + rel.encode(), self.outside)
        for rel in ('index.html', 'secret.txt', 'a/index.html', 'page.html', 'etc/passwd'):
            self._put(os.path.join(self.base, 'w'), rel, b'OUT!w/' + rel.encode(), self.outside)
            self._put(self.base, rel, b'OUT!base/' + rel.encode(), self.outside)
        self.contents = set(self.inside.values())

    def _put(self, d, rel, data, reg):
        p = os.path.join(d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.isdir(p):
            return
        with open(p, 'wb') as f:
            f.write(data)
        reg[p] = data

    def naive(self, path):
        """The file a server that just joins the path to the root would open, if it lies outside of the root."""
        try:
            p = os.path.normpath(self.root + '/' + path.decode('utf8', 'surrogateescape').replace('\\', '/'))
            for q in (p, p + '/index.html', p + '/index.htm'):
                if not (p + '/').startswith(self.root + '/') and os.path.isfile(q):
                    return q
        except ValueError:
            pass
        return None

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)
