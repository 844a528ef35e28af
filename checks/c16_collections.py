"""
C16: remote collections are enumerated completely, once and in order
"""
import io
import json
import os
import random
import tarfile
from urllib.parse import urlsplit as urlparse, parse_qs, unquote

from sim import net, sched
from sim.runner import Check, Violation, sched_spec, simulate, one_line, \
    scratch
from checks import audio

KINDS = ['freesound', 'freesound', 'archive', 'archive', 'drumloops',
         'musicnet', 'nsynth']
FAULTS = ['refuse', 'status', 'reset', 'timeout', 'short', 'garbage', 'stall']
NAMES = ['a', 'song', 'Disc 2 - 01', 'loud & clear', 'caf\u00e9', '50% off',
         '#1 hit', 'why?', 'a+b', 'x%20y', 'semi;colon', 'it\'s', 'deep/one']
STEMS = ['break_%d', 'break_%d', 'Break %d', '%d-(live)', "it's %d~", '%d+1',
         '100%%25-%d', 'deep/%d', '%%C3%%BCbung%d', '%d,5;x=y']
NOTES = ['bass_%d-%03d', 'bass_%d-%03d', 'bass_%d.5-%03d', 'organ %d #%03d']
FORMATS = ['Ogg Vorbis', '128Kbps MP3', 'VBR MP3', 'Flac', 'JPEG']


class C16(Check):
    id = 'C16'
    runs = {'quick': 1400, 'thorough': 40000}
    rule = (
        'a case is one of five services with up to 60 sounds in pages of any '
        'size and names of any kind, and up to three enumerations of it, each '
        'with at most one fault in the network; non-trivial when a fault hit '
        'or there are several pages')
    real = ['zounds.datasets.freesound', 'zounds.datasets.internetarchive',
            'zounds.datasets.phatdrumloops', 'zounds.datasets.musicnet',
            'zounds.datasets.nsynth', 'zounds.datasets.util',
            'requests and urllib3 above the connection']
    stub = ['network connections', 'the services', 'clock']
    assumptions = [
        'the services are simulated from what the code and its documentation '
        'say of them',
        'drum loops are named without dots']

    def generate(self, rng, tier):
        kind = rng.choice(KINDS)
        n = rng.choice([0, 1, 2, 5, rng.randint(3, 25), rng.randint(10, 60)])
        page = rng.choice([1, 2, 3, 5, 15, 100])
        if kind in ('musicnet', 'nsynth'):
            n = min(n, 12)
        huge = kind == 'freesound' and rng.random() < .006
        if huge:
            n, page = 1200, 1
        sounds = [{
            'id': 1000 + i * 7 + rng.randint(0, 6), 'seed': rng.getrandbits(16),
            'format': rng.choice(FORMATS),
            'name': rng.choice(NAMES),
            'stem': rng.choice(STEMS), 'note': rng.choice(NOTES),
            'derived': rng.random() < .3} for i in range(n)]
        rng.shuffle(sounds)
        runs = []
        for _ in range(1 if huge else rng.choice([1, 1, 2, 3])):
            f = None
            if rng.random() < .5 and not huge:
                f = {'kind': rng.choice(FAULTS),
                     'nth': rng.choice([1, 2, rng.randint(1, n + 4)]),
                     'at': rng.random(),
                     'status': rng.choice([401, 404, 429, 500, 503])}
            runs.append({'fault': f,
                         'stop': rng.randint(0, n) if rng.random() < .15
                         else None})
        return {
            'ops': sounds, 'kind': kind, 'page': page, 'runs': runs,
            'limit': 10 ** 6 if huge else rng.choice([
                None, 0, 1, max(0, n - 1), n, n + 1, 1000, page, 2 * page]),
            'delay': rng.choice([0.2, 0, 1]),
            # results that are no longer there
            'gone': [[rng.randint(0, n), rng.choice([1, page, 3 * page])]
                     for _ in range(rng.choice([0, 0, 1, 2]))],
            'filter': rng.choice([None, None, 'MP3', 'all']),
            'attrs': rng.random() < .4,
            'same': rng.random() < .5,
            'sseed': rng.getrandbits(20),
            'sched': sched_spec(rng)}

    def shrink(self, case):
        for i in range(len(case['runs'])):
            if len(case['runs']) > 1:
                c = json.loads(json.dumps(case))
                del c['runs'][i]
                yield c
            if case['runs'][i]['fault']:
                c = json.loads(json.dumps(case))
                c['runs'][i]['fault'] = None
                yield c
        for k, v in (('limit', None), ('attrs', False), ('filter', None),
                     ('gone', [])):
            if case[k] != v:
                yield dict(json.loads(json.dumps(case)), **{k: v})
        for i, s in enumerate(case['ops'][:20]):
            for k, v in (('name', 'a'), ('stem', STEMS[0]),
                         ('note', NOTES[0])):
                if s[k] != v:
                    c = json.loads(json.dumps(case))
                    c['ops'][i][k] = v
                    yield c

    # -- the services -----------------------------------------------------

    def freesound(self, case):
        import zounds
        sounds = case['ops']
        places = list(sounds)
        for i, k in case['gone']:
            places[i: i] = [None] * k

        def content(s):
            return b'ogg of %d' % s['id']

        def data(s):
            return {
                'id': s['id'], 'username': 'user%d' % (s['seed'] % 9),
                'previews': {
                    'preview-hq-ogg':
                        'http://cdn.example/%d.ogg' % s['id'],
                    'preview-lq-ogg': 'http://cdn.example/lq%d' % s['id']},
                'samplerate': 44100.0, 'channels': 1 + s['seed'] % 2,
                'license': 'license %d' % (s['seed'] % 4),
                'description': s['name'], 'tags': ['t%d' % (s['seed'] % 5)]}

        def handler(r):
            u = urlparse(r.url)
            q = parse_qs(u.query)
            if q.get('token') != ['key']:
                return 401, {}, b'{}'
            if u.netloc == 'cdn.example':
                for s in sounds:
                    if u.path == '/%d.ogg' % s['id']:
                        return 200, {}, content(s)
                return 404, {}, b''
            if u.path.startswith('/apiv2/sounds/'):
                for s in sounds:
                    if u.path == '/apiv2/sounds/%d' % s['id']:
                        return 200, {}, json.dumps(data(s)).encode()
                return 404, {}, b'{}'
            if u.path.rstrip('/') != '/apiv2/search/text' or \
                    q.get('query') != ['thunder']:
                return 404, {}, b'{}'
            p = int(q.get('page', ['1'])[0])
            size = case['page']
            a, b = (p - 1) * size, p * size
            nxt = None
            if b < len(places):
                nxt = 'http://www.freesound.org/apiv2/search/text' \
                      '?query=thunder&page=%d' % (p + 1)
            return 200, {}, json.dumps({
                'count': len(sounds), 'next': nxt, 'previous': None,
                'results': [{'id': s['id'], 'name': s['name']}
                            for s in places[a: b] if s]}).encode()

        kw = {'delay': case['delay']}
        limit = 10
        if case['limit'] is not None:
            limit = kw['n_results'] = case['limit']

        def make():
            return zounds.FreeSoundSearch('key', 'thunder', **kw)
        want = [({'samplerate': d['samplerate'], 'channels': d['channels'],
                  'licensing': d['license'], 'description': d['description'],
                  'tags': d['tags'],
                  'web_url': 'https://freesound.org/people/%s/sounds/%d/' % (
                      d['username'], d['id'])}, content(s))
                for s, d in ((s, data(s)) for s in sounds[:limit])]
        return handler, make, want, True, 'json'

    def archive(self, case):
        import zounds
        files = {}
        content = {}
        order = []
        for s in case['ops']:
            stem = '/%s %d' % (s['name'], s['id'])
            k = '%s.%s' % (stem, s['format'][:3].strip().lower())
            v = {'format': s['format'], 'size': str(s['seed']),
                 'title': 'title of %d' % s['id'], 'track': str(s['id'])}
            if s['derived']:
                # made from an original, which has the details
                o = stem + '.wav'
                files[k] = {'source': 'derivative', 'original': o[1:],
                            'format': s['format'], 'size': str(s['seed'])}
                files[o] = dict(v, source='original', format='WAVE')
                content[o] = b'content of ' + o.encode()
                order += [k, o]
            else:
                files[k] = dict(v, source='original')
                order.append(k)
            content[k] = b'content of ' + k.encode()
        body = json.dumps({'files': {k: files[k] for k in order}}).encode()

        def handler(r):
            u = urlparse(r.url)
            path = unquote(u.path)
            if path == '/details/some_id&output=json':
                return 200, {}, body
            if path.startswith('/download/some_id/'):
                k = path[len('/download/some_id'):]
                if k in content and not u.query:
                    return 200, {}, content[k]
            return 404, {}, b'no such thing'
        kw = {}
        accept = lambda v: v['format'] == 'Ogg Vorbis'
        if case['filter'] == 'MP3':
            accept = kw['format_filter'] = lambda v: 'MP3' in v['format']
        elif case['filter'] == 'all':
            accept = kw['format_filter'] = lambda v: True
        attrs = {'artist': 'somebody', 'licensing': 'free'} \
            if case['attrs'] else {}

        def make():
            return zounds.InternetArchive('some_id', **dict(kw, **attrs))
        want = []
        for k in order:
            if accept(files[k]):
                m = files[k]
                if m['source'] == 'derivative':
                    m = files['/' + m['original']]
                m = dict(m, **attrs)
                m['web_url'] = 'https://archive.org//details/some_id'
                want.append((m, content[k]))
        return handler, make, want, True, 'json'

    def drumloops(self, case):
        import zounds
        sounds = case['ops']
        page = ['<html><body><a href="/audio/index.html">all</a>']
        content = {}
        want = []
        attrs = {'artist': 'somebody'} if case['attrs'] else {}
        for s in sounds:
            p = '/audio/wav/%s.wav' % (s['stem'] % s['id'])
            page.append('<tr><td>%s</td><td><a href="%s">wav</a>'
                        '<a href="/audio/mp3/%d.mp3">mp3</a></td></tr>' % (
                            s['name'], p, s['id']))
            q = unquote(p)
            content[q] = b'break %d' % s['id']
            want.append((dict(
                attrs, web_url='http://www.phatdrumloops.com/beats.php'),
                content[q]))
        body = ('\n' if case['same'] else '').join(page).encode('utf8')

        def handler(r):
            u = urlparse(r.url)
            if u.path == '/beats.php':
                return 200, {'Content-Type': 'text/html' + (
                    '; charset=utf-8' if case['same'] else '')}, body
            path = unquote(u.path)
            if path in content and not u.query:
                return 200, {}, content[path]
            return 404, {}, b''

        def make():
            return zounds.PhatDrumLoops(**attrs)
        return handler, make, want, True, 'html'

    def musicnet(self, case):
        import numpy as np
        import zounds
        from zounds.datasets import MusicNet
        path = scratch('musicnet')
        os.mkdir(os.path.join(path, 'train_data'))
        rows = ['id,composer,composition,seconds']
        want = []
        for s in case['ops']:
            x = audio.signal(400 + s['seed'] % 300, 1, s['seed'])
            with open(os.path.join(
                    path, 'train_data', '%d.wav' % s['id']), 'wb') as f:
                f.write(audio.encode(x, 44100, 'WAV', 'PCM_16'))
            rows.append('%d,"Bach, J. S.",%s,%d' % (
                s['id'], s['name'], s['seed']))
            want.append(({
                'id': str(s['id']), 'composer': 'Bach, J. S.',
                'composition': s['name'], 'seconds': str(s['seed']),
                'samplerate': 44100},
                audio.encode(x, 44100, 'WAV', 'PCM_16')))
        # rows of files that are not there
        rows.append('1,somebody,else,1')
        body = '\n'.join(rows).encode('utf8') + b'\n'

        def handler(r):
            if r.url.endswith('/musicnet_metadata.csv'):
                return 200, {'Content-Type': 'text/csv'}, body
            return 404, {}, b''
        return handler, lambda: MusicNet(path), want, False, 'csv'

    def nsynth(self, case):
        from zounds.datasets import NSynth
        path = scratch('nsynth')
        out = io.BytesIO()
        meta = {}
        want = []
        with tarfile.open(fileobj=out, mode='w:gz') as tar:
            def add(name, b):
                i = tarfile.TarInfo(name)
                i.size = len(b)
                tar.addfile(i, io.BytesIO(b))
            d = tarfile.TarInfo('nsynth-valid/audio')
            d.type = tarfile.DIRTYPE
            tar.addfile(d)
            for s in case['ops']:
                name = note(s)
                m = {'note': s['id'], 'instrument_str': s['name'],
                     'samplerate': 16000}
                meta[name] = m
                b = b'RIFF of ' + name.encode() * (1 + s['seed'] % 300)
                if case['same'] and len(want) == 1:
                    add('nsynth-valid/examples.json',
                        json.dumps(all_meta(case['ops'])).encode())
                add('nsynth-valid/audio/%s.wav' % name, b)
                want.append((dict(
                    m, web_url='https://magenta.tensorflow.org/datasets/'
                               'nsynth'), b))
            if not (case['same'] and len(want) > 1):
                add('nsynth-valid/examples.json',
                    json.dumps(all_meta(case['ops'])).encode())
        body = out.getvalue()

        def handler(r):
            if r.url.endswith('/nsynth-valid.jsonwav.tar.gz'):
                return 200, {}, body
            return 404, {}, b''
        return handler, lambda: NSynth(path), want, True, 'tar'

    # -- the run -----------------------------------------------------------

    def execute(self, case, res):
        import requests
        kind = case['kind']
        handler, make, want, ordered, fmt = getattr(self, kind)(case)
        state = {'fault': None, 'left': 0, 'hit': False, 'garbage': False}
        times = []

        def fault(r, n):
            times.append(sched.ACTIVE.now)
            f = state['fault']
            if f is None:
                return None
            state['left'] -= 1
            if state['left'] != 0:
                return None
            if f['kind'] == 'garbage':
                state['garbage'] = True
                return None
            body = handler(r)[2]
            at = int(f['at'] * len(body))
            if f['kind'] in ('reset', 'timeout', 'short') and \
                    at >= len(body):
                return None
            state['hit'] = f['kind'] != 'stall'
            return dict(f, at=at)

        def serve(r):
            status, headers, body = handler(r)
            if state['garbage']:
                # an answer, but not from the service
                state['garbage'] = False
                if fmt == 'json':
                    state['hit'] = True
                    res.fault('garbage answer')
                    return 200, {}, b'<html>please sign in</html>'
            return status, headers, body

        net.NET[0] = net.SimNet(serve, fault, res, case['sseed'])
        names = set()
        for m, _ in want:
            names.update(m)

        def compare(k, meta, m, body, when):
            for a in sorted(names):
                got = getattr(meta, a, None)
                if got != m.get(a):
                    raise Violation(
                        'metadata', '%s: sound %d of %s has %s %r, expected '
                        '%r' % (when, k, kind, a, got, m.get(a)))
            if isinstance(meta.uri, requests.Request):
                try:
                    r = requests.Session().send(meta.uri.prepare())
                    r.raise_for_status()
                    b = r.content
                except Exception as e:
                    raise Violation(
                        'unreachable', '%s: sound %d of %s cannot be '
                        'fetched: %s' % (when, k, kind, one_line(e)))
            else:
                b = meta.uri.read()
            if b != body:
                raise Violation(
                    'other sound', '%s: sound %d of %s is another one' % (
                        when, k, kind))

        def main(s_):
            it = make()
            runs = list(case['runs']) + [{'fault': None, 'stop': None}]
            if len(case['ops']) > 500:
                runs = runs[-1:]
            for n, run in enumerate(runs):
                when = 'enumeration %d' % n
                f = run['fault']
                state.update(fault=f, left=f['nth'] if f else 0, hit=False,
                             garbage=False)
                if not case['same']:
                    it = make()
                got = []
                err = None
                del times[:]
                stop = run['stop']
                try:
                    if stop != 0:
                        for meta in it:
                            got.append(meta)
                            if len(got) > len(want):
                                break
                            if len(got) == stop:
                                break
                except Exception as e:
                    err = e
                state['fault'] = None
                res.note(when, len(got), type(err).__name__)
                if kind == 'freesound':
                    for a, b in zip(times, times[1:]):
                        if b - a < case['delay'] - 1e-6:
                            raise Violation(
                                'too fast', '%s: requests %.3f s apart '
                                'instead of %s' % (when, b - a,
                                                   case['delay']))
                if len(got) > len(want):
                    raise Violation(
                        'too many', '%s: more than the %d sounds of %s' % (
                            when, len(want), kind))
                if ordered:
                    for k, meta in enumerate(got):
                        if len(got) > 100 and k % 50:
                            continue
                        compare(k, meta, want[k][0], want[k][1], when)
                else:
                    left = dict((m['id'], (m, b)) for m, b in want)
                    for k, meta in enumerate(got):
                        w = left.pop(meta.id, None)
                        if w is None:
                            raise Violation(
                                'repeated', '%s: sound %s of %s is there '
                                'twice, or does not exist' % (
                                    when, meta.id, kind))
                        compare(k, meta, w[0], w[1], when)
                if err is not None:
                    if not state['hit']:
                        raise Violation(
                            'healthy', '%s of %s fails without a fault, '
                            'after %d of %d sounds: %s' % (
                                when, kind, len(got), len(want),
                                one_line(err)))
                elif len(got) < len(want) and (
                        stop is None or len(got) < stop):
                    raise Violation(
                        'shortened', '%s: %d of %d sounds of %s, and no '
                        'error%s' % (
                            when, len(got), len(want), kind,
                            ' (%s)' % f['kind'] if f else ''))

        simulate(case, res, main, max_steps=4000000, quiet=True)
        res.nontrivial = sum(res.faults.values()) > 0 or (
            kind == 'freesound' and len(case['ops']) > case['page'])


def note(s):
    return s['note'] % (s['id'], s['seed'] % 128)


def all_meta(sounds):
    return dict((note(s), {
        'note': s['id'], 'instrument_str': s['name'], 'samplerate': 16000})
        for s in sounds)


CHECK = C16()
