"""C40: dates, media types, byte order."""
import calendar, json, os, random, struct, time
from vlib import build, pure, common

TECHNIQUE = 'runtime monitoring: generated timestamps, file extensions and numbers through the helpers built with ASan+UBSan, compared with independent implementations and system media type registries, under several time zones'
NOTE = 'Dates of the years 1000 to 9999. Media types: an extension is right when it has one of the types that the system registries (mime.types, shared-mime-info, Python) give it; extensions unknown to those are only required to give some media type.'

DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def civil(t):
    """days algorithm, independent of the C library"""
    d, s = divmod(t, 86400)
    wd = (d + 3) % 7
    z = d + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    day = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return y + (m <= 2), m, day, s // 3600, s // 60 % 60, s % 60, wd


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'a timestamp, a file extension or a number that was converted'
    mime = json.load(open(os.path.join(common.VERIF, 'data', 'mime.json')))
    LO, HI = -30610224000, 253402300799
    times = [0, 1, -1, 59, 60, 86399, 86400, -86400, -86401, 951782399, 951782400, 951868799, 951868800, 4107542399, 4107542400, 2147483647, 2147483648, -2147483648, 1 << 32, HI, LO, 1709164800, 1709251199, 1735689599, 1735689600]
    rng = random.Random('%s/t' % c.seed)
    for _ in range(c.scale(6000, 100000)):
        k = rng.random()
        if k < 0.4:
            times.append(rng.randrange(0, 1 << 32))
        elif k < 0.7:
            times.append(rng.randrange(LO, HI))
        else:
            y, m = rng.randrange(1600, 2500), rng.randrange(1, 13)
            times.append(calendar.timegm((y, m, 1, 0, 0, 0)) + rng.choice([0, -1, 86400 * 27, 86400 * 28, 86400 * 28 - 1, 86400 * 31 - 1]))

    def jdate(args, r, t):
        y, m, d, hh, mm, ss, wd = civil(t)
        want = ['%s, %02d %s %d %02d:%02d:%02d GMT' % (DAYS[wd], d, MONTHS[m - 1], y, hh, mm, ss), '%02d %s %d %02d:%02d:%02d' % (d, MONTHS[m - 1], y, hh, mm, ss), '%s, %02d %s %d' % (DAYS[wd], d, MONTHS[m - 1], y),
                str(y - 1900), str(m - 1), str(d), str(hh), str(mm), str(ss), str(t)]
        got = [x.decode('latin1') for x in r[1:]]
        c.case('t%d' % t, {'t': t, 'utc': got[0]})
        c.count('dates')
        for name, w, g in zip(('toUTCString', 'toHRTString', 'getDate', 'getYear', 'getMonth', 'getDay', 'getHours', 'getMinutes', 'getSeconds', 'getTime'), want, got):
            if w != g and not (name == 'getYear' and int(g) == y):
                c.violation('date:' + name, '%s of %d is %r instead of %r' % (name, t, g, w))
    for i, tz in enumerate(['UTC', 'America/New_York', 'XXX-11:30', 'Pacific/Apia', 'EST5EDT']):
        pure.run(c, exe, [(['date', t], t) for t in times[i::5]], jdate, env={'TZ': tz})
        pure.run(c, exe, [(['date', t], None) for t in (-(1 << 63), (1 << 63) - 1, 1 << 55, -(1 << 55), 67767976233532799, 67768036191676799, 67768036191676800, HI + 1, LO - 10 ** 11)], lambda a, r, x: c.count('extreme_dates'), env={'TZ': tz})

    def jnow(args, r, x):
        now = time.time()
        t = int(r[1])
        if abs(now - t) > 60:
            c.violation('date:now', 'the current date is %d, the clock says %d' % (t, now))
        y, m, d, hh, mm, ss, wd = civil(t)
        if r[2].decode() != '%s, %02d %s %d %02d:%02d:%02d GMT' % (DAYS[wd], d, MONTHS[m - 1], y, hh, mm, ss):
            c.violation('date:now-text', '%r for %d' % (r[2], t))
    pure.run(c, exe, [['datenow']] * 5, jnow, env={'TZ': 'America/New_York'})

    calls = []
    rng = random.Random('%s/m' % c.seed)
    for e, types in mime.items():
        var = {e, e.upper(), ''.join(rng.choice([x.lower(), x.upper()]) for x in e)}
        for v in sorted(var):
            for name in (v, '.' + v, 'file.' + v, 'a.b.' + v, 'x.html.' + v, 'index.tar.' + v):
                calls.append((['mime', name], types))
    for n in ['', '.', 'nope', '.nope', 'file.', 'x.zzzzz', 'html.zzz', 'htmlx', 'xhtm', 'a.html.unknown1', '\0', 'html\0', '\xff', 'x' * 10000]:
        calls.append((['mime', n.encode('latin1')], ['application/octet-stream']))

    def jmime(args, r, types):
        got = r[1].decode('latin1')
        c.case('mime ' + common.show(args[1]), '%s -> %s' % (common.show(args[1], 30), got))
        c.count('media_types')
        if got.lower() not in types:
            c.violation('mime', 'the media type of %s is %r, expected %s' % (common.show(args[1]), got, ' or '.join(types)))
    pure.run(c, exe, calls, jmime)
    # the reverse direction gives an extension that has this type
    types = sorted({t for v in mime.values() for t in v})
    back = []

    def jext(args, r, x):
        if r[1] != b'bin':
            back.append((['mime', r[1]], args[1]))
    pure.run(c, exe, [(['mimeext', t], None) for t in types], jext)

    def jback(args, r, t):
        c.count('reverse_media_types')
        if r[1].decode() != t:
            c.violation('mimeext', 'type %s was given extension %r, which has type %r' % (t, args[1], r[1]))
    pure.run(c, exe, back, jback)

    swaps = []
    for t, n in (('i16', 2), ('u16', 2), ('i32', 4), ('u32', 4), ('i64', 8), ('u64', 8)):
        vals = set()
        if n == 2:
            vals |= {struct.pack('<H', x) for x in range(0, 65536, 1 if c.thorough else 5)}
        for k in range(256):
            for p in range(n):
                vals.add(bytes([0] * p + [k] + [0] * (n - p - 1)))
                vals.add(bytes([255] * p + [k] + [255] * (n - p - 1)))
        for _ in range(c.scale(500, 20000)):
            vals.add(rng.randbytes(n))
        vals.add(bytes(range(1, n + 1)))
        swaps += [(['swap', t, v], (t, n, v)) for v in sorted(vals)]

    def jswap(args, r, x):
        t, n, v = x
        net, store, back = r[1][:n], r[1][n:2 * n], r[1][2 * n:]
        c.case(t.encode() + v)
        c.count('swaps')
        if net != v[::-1] or store != v or back != v:
            c.violation('swap:' + t, '%s %s: network %s, storage %s, network twice %s' % (t, v.hex(), net.hex(), store.hex(), back.hex()))
    pure.run(c, exe, swaps, jswap)
    c.require('dates', 5000)
    c.require('media_types', 5000)
    c.require('reverse_media_types', 300)
    c.require('swaps', 10000)
