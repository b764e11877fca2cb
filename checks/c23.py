"""C23: snapshots of virtual file systems."""
import io, os, random, shutil, subprocess, tarfile, tempfile
from vlib import build, pure, common, vfs

TECHNIQUE = 'runtime monitoring: random file sets saved and loaded back by the library built with ASan+UBSan; the archives it writes are checked by an independent strict reader, by Python and by GNU tar, archives written by those are loaded and compared'
NOTE = 'File names without zero bytes, compared in lower case as the file system stores them; GNU and pax extensions other than long names may be refused, which is not judged.'
EXT = ['.tar', '.tar.gz', '.tgz', '.TAR', '.Tar.Gz']


def lower(files):
    out = {}
    for n, b in files:
        out[n.lower()] = b
    return out


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'a file set that was saved or loaded, distinct by content'
    rng = random.Random('%s/t' % c.seed)
    tmp = tempfile.mkdtemp(prefix='lambda-tar-')
    gnutar = shutil.which('tar')
    try:
        calls = []
        # saved by the library
        for i in range(c.scale(700, 8000)):
            n = rng.choice([0, 1, 1, 2, 3, 5, 12]) if i % 40 else rng.choice([50, 300])
            files = vfs.fileset(rng, n, big=i % 20 == 3)
            if i % 7 == 0:
                files = {vfs.safe_name(rng, 500): b for b in files.values()}
            files = lower(files.items())
            seq = []
            for k, b in files.items():
                seq += [('write' if rng.random() < 0.5 else 'writeb', k if rng.random() < 0.5 else k.upper() if k.upper().lower() == k else k, b)]
            p = '%s/s%d%s' % (tmp, i, rng.choice(EXT))
            seq += [('save', p), ('new',)]
            more = {}
            if rng.random() < 0.2:
                # loading adds to what is there
                more = {vfs.name(rng).lower(): b'old'} if rng.random() < 0.5 else {k: b'replaced' for k in list(files)[:1]}
                seq += [('write', k, b) for k, b in more.items()]
            seq += [('load', p), ('list',), ('stats',)]
            want = dict(more)
            want.update(files)
            seq += [('read', k) for k in want]
            calls.append((['vfs'] + [a for o in seq for a in o], ('save', seq, p, files, want, i % 7 == 0)))
        # written by others
        for i in range(c.scale(700, 8000)):
            kind = rng.choice(['py', 'py', 'own', 'gnu'] if gnutar else ['py', 'own'])
            n = rng.choice([0, 1, 2, 4, 10])
            files, times = [], {}
            if kind == 'own':
                data = b''
                for _ in range(n):
                    nm, b = vfs.name(rng), vfs.content(rng)
                    if i % 25 == 3:
                        b = vfs.content(rng, True)
                    nm = nm if not nm.startswith(b'\0') else b'n'
                    typ = rng.choice([b'0', b'0', b'\0', b'7'])
                    t = rng.randrange(2_000_000_000)
                    times[nm.lower()] = t
                    k = rng.random()
                    if len(nm) > 100 or k < 0.2:
                        data += vfs.entry(b'././@LongLink', nm + (b'\0' if rng.random() < 0.5 else b''), typ=b'L') + vfs.entry(nm[:rng.choice([99, 100])], b, t, typ)
                    elif b'/' in nm[1:-1] and k < 0.8:
                        j = nm.index(b'/', 1)
                        if j < len(nm) - 1:
                            data += vfs.entry(nm[j + 1:], b, t, typ, prefix=nm[:j])
                        else:
                            data += vfs.entry(nm, b, t, typ)
                    else:
                        data += vfs.entry(nm, b, t, typ)
                    files.append((nm, b))
                    while rng.random() < 0.3:
                        # not files
                        x = rng.choice([(b'5', b''), (b'5', b''), (b'2', b''), (b'1', b''), (b'3', b''), (b'6', b''), (b'g', b'52 comment=0123456789012345678901234567890123456789\n'), (b'g', b'x' * 700), (b'g', b'y' * 1024)])
                        if rng.random() < 0.3:
                            # with a name too long for its header
                            data += vfs.entry(b'././@LongLink', b'long/' * 30 + b'thing', typ=b'L')
                        data += vfs.entry(b'other/thing', x[1], typ=x[0])
                data += vfs.END + b'\0' * rng.choice([0, 0, 512, 8704])
            else:
                names = {}
                for _ in range(n):
                    nm = vfs.safe_name(rng)
                    if any((a + b'/').startswith(nm + b'/') or (nm + b'/').startswith(a + b'/') for a in names):
                        continue
                    try:
                        tarfile.TarInfo(nm.decode()).tobuf(tarfile.USTAR_FORMAT)
                    except ValueError:
                        continue
                    names[nm] = vfs.content(rng, i % 25 == 3 and not names)
                files = list(names.items())
                times = {k: rng.randrange(2_000_000_000) for k in names}
                if kind == 'py':
                    data = vfs.std_tar(files, dirs=rng.random() < 0.5, links=rng.random() < 0.3, times=times)
                else:
                    d = '%s/g%d' % (tmp, i)
                    os.makedirs(d)
                    for k, b in files:
                        f = d.encode() + b'/' + k
                        os.makedirs(os.path.dirname(f), exist_ok=True)
                        with open(f, 'wb') as fh:
                            fh.write(b)
                        os.utime(f, (times[k], times[k]))
                    o = subprocess.run([gnutar, '--format=ustar', '-C', d, '-cf', '-'] + (['--'] + sorted({k.decode().split('/')[0] for k in names}) if names else ['-T', '/dev/null']), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                    shutil.rmtree(d)
                    if o.returncode:
                        raise common.HarnessError('tar: ' + o.stderr.decode('latin1')[-300:])
                    data = o.stdout
                c.count('archives_by_' + kind)
            p = '%s/o%d%s' % (tmp, i, rng.choice(EXT))
            if p.lower().endswith('gz'):
                data = vfs.gz(data, rng.randrange(10))
                c.count('foreign_gzip')
            seq = [('loaddata', p, data), ('list',), ('stats',)]
            want = lower(files)
            seq += [('read', k) for k in want]
            calls.append((['vfs'] + [a for o in seq for a in o], ('load', seq, p, {k.lower(): v for k, v in times.items()}, want, kind)))
        # what cannot be done is reported
        for ext in ('.tar', '.tgz'):
            os.symlink('/dev/full', tmp + '/full' + ext)
        ok = vfs.std_tar([(b'x', b'y')])
        for i, (seq, what) in enumerate([
                ([('load', tmp + '/missing.tar')], 'loading a missing file'),
                ([('load', tmp + '/missing.tar.gz')], 'loading a missing file'),
                ([('load', tmp)], 'loading a directory'),
                ([('write', 'a', 'b'), ('save', tmp + '/no/such/dir/x.tar')], 'saving to a missing directory'),
                ([('write', 'a', 'b'), ('save', tmp + '/no/such/dir/x.tgz')], 'saving to a missing directory'),
                ([('save', tmp + '/no/such/dir/x.tar')], 'saving to a missing directory'),
                ([('write', 'n%d' % k, 'b') for k in range(8)] + [('save', tmp + '/no/such/dir/x.tar')], 'saving several files to a missing directory'),
                ([('write', 'n%d' % k, b'b' * 300000) for k in range(8)] + [('save', tmp + '/no/such/dir/x.tgz')], 'saving several files to a missing directory'),
                ([('write', 'n%d' % k, b'b' * 30) for k in range(300)] + [('save', tmp + '/full.tar')], 'saving to a full device'),
                ([('write', 'n%d' % k, rng.randbytes(100000)) for k in range(20)] + [('save', tmp + '/full.tgz')], 'saving to a full device'),
                ([('write', 'a', 'b'), ('save', tmp + '/x.zip')], 'saving with an unknown extension'),
                ([('write', 'a', 'b'), ('save', tmp + '/tar')], 'saving with an unknown extension'),
                ([('write', 'a', 'b'), ('save', tmp + '/x.tar.bz2')], 'saving with an unknown extension'),
                ([('write', 'a', 'b'), ('save', tmp + '/x.gz.txt')], 'saving with an unknown extension'),
                ([('write', 'a', 'b'), ('save', tmp + '/x.')], 'saving with an unknown extension'),
                ([('loaddata', tmp + '/y.txt', ok)], 'loading with an unknown extension'),
                ([('loaddata', tmp + '/y.tar.xz', ok)], 'loading with an unknown extension'),
                ([('loaddata', tmp + '/y', ok)], 'loading with an unknown extension')]):
            calls.append((['vfs'] + [a for o in seq for a in o], ('error', seq, what)))
        # names that archives cannot hold must not cost other files
        for nm in (b'', b'a\0b', b'\0'):
            for ext in ('.tar', '.tar.gz'):
                p = '%s/e%d%s' % (tmp, len(calls), ext)
                files = {nm: b'content', b'one': b'1', b'two': b'2' * 600, b'three': b''}
                seq = [('write', k, b) for k, b in files.items()] + [('save', p), ('new',), ('load', p)] + [('read', k) for k in files]
                calls.append((['vfs'] + [a for o in seq for a in o], ('odd', seq, files)))
        # failing writes
        for i in range(c.scale(100, 1000)):
            files = {b'f%d' % j: rng.randbytes(rng.choice([0, 100, 1000, 5000, 200000])) for j in range(rng.choice([0, 1, 2, 6]))}
            p = '%s/w%d%s' % (tmp, i, rng.choice(EXT))
            total = sum(512 + len(b) + (-len(b) % 512) for b in files.values()) + 1024 if not p.lower().endswith('gz') else sum(map(len, files.values())) + 30
            limit = rng.choice([0, rng.randrange(total), max(0, total - rng.randrange(1, 600))])
            seq = [('write', k, b) for k, b in files.items()] + [('fsize', '%d' % limit), ('save', p), ('fsize', '-'), ('new',), ('load', p)] + [('read', k) for k in files]
            calls.append((['vfs'] + [a for o in seq for a in o], ('limit', seq, files, p, limit)))

        def judge(args, r, x):
            kind, seq = x[0], x[1]
            if r[0] != b'K':
                c.violation('script', 'a script could not be run: %s' % common.show(r[1:2]))
                return
            res = [pure.step(s) for s in r[1:]]
            ops = [o for o in seq if o[0] != 'fsize']

            def show(files):
                return common.show([(k, len(v)) for k, v in files.items()], 150)

            def loaded(want, why):
                """Compares listing, statistics and contents after a load."""
                good = True
                for o, (st, v) in zip(ops, res):
                    if st != 'K':
                        c.violation('error:' + o[0], '%s failed: %s (%s)' % (o[0], common.show(v[:1]), why))
                        return False
                    if o[0] == 'list':
                        got = {q[0]: int(q[1]) for q in vfs.files_of(v)}
                        if got != {k: len(b) for k, b in want.items()} or len(vfs.files_of(v)) != len(want):
                            c.violation('names', 'loaded %s instead of %s (%s)' % (common.show(sorted(got.items()), 150), show(want), why))
                            return False
                    elif o[0] == 'stats':
                        if (int(v[0]), int(v[1])) != (len(want), sum(len(k) + len(b) for k, b in want.items())):
                            c.violation('stats', 'statistics are %s after loading %s (%s)' % (common.show(v), show(want), why))
                            good = False
                    elif o[0] == 'read' and o[1] in want and (not v or v[1] != want[o[1]]):
                        c.violation('content', 'content of %s differs: %s instead of %s (%s)' % (common.show(o[1], 60), common.show(v[1] if v else None, 60), common.show(want[o[1]], 60), why))
                        return False
                return good
            if kind == 'save':
                _, _, p, files, want, safe = x
                if not loaded(want, 'saved to *%s and loaded' % p[-5:]):
                    return
                raw = open(p, 'rb').read()
                os.unlink(p)
                times = {}
                try:
                    data = vfs.gunzip(raw) if p.lower().endswith('gz') else raw
                    ents = vfs.parse(data, True)
                except (vfs.Bad, Exception) as e:
                    c.violation('archive', 'the archive of %s is not well-formed: %s (*%s)' % (show(files), e, p[-5:]))
                    return
                if {e[0]: e[2] for e in ents} != files or len(ents) != len(files) or any(e[1] != b'0' for e in ents):
                    c.violation('archive-files', 'the archive of %s has the entries %s' % (show(files), common.show([(e[0], e[1], len(e[2])) for e in ents], 150)))
                    return
                for e in ents:
                    times[e[0]] = e[3]
                # as Python reads it
                try:
                    t = tarfile.open(fileobj=io.BytesIO(data), encoding='utf-8', errors='surrogateescape')
                    got = {}
                    for m in t:
                        got[m.name.encode('utf-8', 'surrogateescape')] = t.extractfile(m).read() if m.isreg() else m.type
                except tarfile.TarError as e:
                    c.violation('archive-python', 'Python cannot read the archive of %s: %s' % (show(files), e))
                    return
                if got != files:
                    c.violation('archive-python', 'Python reads %s from the archive of %s' % (common.show([(k, v if not isinstance(v, bytes) else len(v)) for k, v in got.items()], 150), show(files)))
                    return
                if safe and gnutar:
                    o = subprocess.run([gnutar, '-tf', '-', '--quoting-style=literal'], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                    o2 = subprocess.run([gnutar, '-xOf', '-'], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                    if o.returncode or o.stderr or o2.returncode or o2.stderr or o.stdout.split(b'\n')[:-1] != [e[0] for e in ents] or o2.stdout != b''.join(e[2] for e in ents):
                        c.violation('archive-gnu', 'GNU tar does not read the archive of %s: %s' % (show(files), (o.stderr or o2.stderr).decode('latin1')[:300]))
                        return
                    c.count('read_by_gnu_tar')
                c.count('round_trips')
                c.count('round_trips_gzip' if p.lower().endswith('gz') else 'round_trips_tar')
                c.note_max('files_in_a_snapshot', len(files))
                c.note_max('largest_snapshot', len(data))
                c.case(common.hashlib.sha1(data).hexdigest(), None)
            elif kind == 'load':
                _, _, p, times, want, by = x
                if os.path.exists(p):
                    os.unlink(p)
                if not loaded(want, 'from an archive by %s, *%s' % (by, p[-5:])):
                    return
                for o, (st, v) in zip(ops, res):
                    if o[0] == 'read' and int(v[4]) != times[o[1]]:
                        c.violation('mtime', 'the modification time of %s is %s instead of %d' % (common.show(o[1], 60), v[4].decode(), times[o[1]]))
                        return
                c.count('foreign_archives')
                c.case(common.hashlib.sha1(pure.enc(args)).hexdigest(), None)
            elif kind == 'error':
                if res[-1][0] != 'E':
                    c.violation('unreported', x[2] + ' was not reported')
                c.count('reported_errors')
            elif kind == 'odd':
                files = x[2]
                i = [o[0] for o in ops].index('save')
                if res[i][0] == 'E':
                    c.count('reported_errors')
                    return
                for o, (st, v) in list(zip(ops, res))[i + 1:]:
                    if st != 'K' or o[0] == 'read' and (not v or v[1] != files[o[1]]):
                        c.violation('odd-name', 'a file with the name %s was saved without error, but %s failed then' % (common.show(list(files)[0]), common.show(o)))
                        return
            elif kind == 'limit':
                _, _, files, p, limit = x
                i = [o[0] for o in ops].index('save')
                c.count('limited_saves')
                if res[i][0] == 'E':
                    c.count('reported_errors')
                    return
                for o, (st, v) in list(zip(ops, res))[i + 1:]:
                    if st != 'K' or o[0] == 'read' and (not v or v[1] != files[o[1]]):
                        c.violation('failed-write', 'a snapshot that could not be written (limit of %d bytes) was reported as saved' % limit)
                        return
        pure.run(c, exe, calls, judge, limit=60)
        for n in ('x.zip', 'tar', 'x.tar.bz2', 'x.gz.txt', 'x.'):
            if os.path.exists(tmp + '/' + n):
                c.violation('unsupported-written', 'a file was written although its extension %s is not supported' % n)
        lk = []
        for i in range(60):
            fs = vfs.fileset(rng, 4)
            p = '%s/lk%d%s' % (tmp, i, EXT[i % 5])
            lk.append(['vfs'] + [a for k, b in fs.items() for a in ('write', k, b)] + ['save', p, 'load', p])
        pure.leaks(c, exe, lk)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    c.require('round_trips', 500)
    c.require('round_trips_gzip', 150)
    c.require('foreign_archives', 500)
    c.require('reported_errors', 40)
