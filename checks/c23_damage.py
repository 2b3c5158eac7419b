"""C23: batch commands survive missing or damaged files and data"""
import glob
import itertools
import json
import os
import shutil
import sys
import types
import warnings

import numpy as np

from mc import batchlab as lab
from mc.engine import Check, Violation
from mc.build import subsets

DIR = None
REF = {}
SITES = (0, 1)
RECORDS = [(e, s) for e in (0, 1) for s in SITES]
KINDS = {'Q': ('ok', 'missing', 'nohdr', 'nobin', 'empty', 'garbage'),
         'SAC': ('ok', 'missing', 'one', 'two', 'garbage', 'empty', 'trunc',
                 'trunchdr'),
         'H5': ('ok', 'missing', 'one', 'two')}
WHOLE = ('missing', 'empty', 'garbage', 'trunc', 'trunc100')
COMMANDS = ('calc', 'calc moveout', 'moveout', 'convert', 'stack', 'profile',
            'plot')
ANSWERS = ('ok', 'exc', 'sysexc', 'none', 'empty', 'two', 'object', 'key')
ENDS = (KeyboardInterrupt, SystemExit)


class Odd(Exception):
    """Exception which can not be printed"""

    def __str__(self):
        return 'odd'


def recname(e, s):
    return 'CX.%s.%s' % lab.SITES[s][:2], str(lab.EVENTS[e][3])[:19]


def assignments(kinds, n, depth):
    """All assignments with at most depth entries different from kinds[0]"""
    for pos in subsets(range(n)):
        if len(pos) > depth:
            continue
        for val in itertools.product(kinds[1:], repeat=len(pos)):
            a = [kinds[0]] * n
            for p, v in zip(pos, val):
                a[p] = v
            yield a


class C(Check):
    id = 'C23'
    rule = ('all assignments of damages %r to 4 records for all commands '
            'reading files and formats; all assignments of answers %r to the '
            'requests for 4 records; exception ending the program at each '
            'request; all kinds of data sources and plugins' % (
                KINDS, ANSWERS))
    bounds = {'quick': '<= 2 damaged records (calc, stack) or 1 (other '
                       'commands), <= 2 irregular answers',
              'thorough': '4 damaged records (calc, stack) or 2 (other '
                          'commands), 4 irregular answers'}
    assumptions = (
        'components of a record of which other components are damaged might '
        'be processed or not',
        'a header file of Q format truncated to a part which still can be '
        'parsed counts as valid file with less headers')
    timeout = 600

    def setup(self):
        global DIR
        DIR = os.path.abspath('dmg')
        os.makedirs(DIR)
        inv = lab.inventory(extra=False, sites=SITES)
        lab.catalog().write(os.path.join(DIR, 'events.xml'), 'QUAKEML')
        inv.write(os.path.join(DIR, 'stations.xml'), 'STATIONXML')
        st = lab.waveforms(RECORDS, phases='P')
        st.write(os.path.join(DIR, 'data.mseed'), 'MSEED')
        h = len(st) // 2
        st[:h].write(os.path.join(DIR, 'part1.ms'), 'MSEED')
        st[h:].write(os.path.join(DIR, 'part2.ms'), 'MSEED')
        REF.update(lab.library(lab.conf(DIR), DIR, inv))
        REF['requests'] = []
        from rf import iter_event_data

        def source(**kw):
            REF['requests'].append(kw)
            return st.select(kw['network'], kw['station'], kw['location'],
                             kw['channel']).slice(kw['starttime'],
                                                  kw['endtime']).copy()
        list(iter_event_data(lab.catalog(), inv, source, **lab.OPTIONS))
        old = os.getcwd()
        os.chdir(DIR)
        try:
            for fmt in lab.FORMATS:
                with open('c.json', 'w') as f:
                    json.dump(lab.conf('.', format=fmt), f)
                for cmd in ('data raw_', 'data calc rf_'):
                    r = lab.cli(['-c', 'c.json'] + (cmd + fmt).split())
                    if r[0] not in (0, None):
                        raise RuntimeError(r)
        finally:
            os.chdir(old)

    def cases(self, tier):
        deep = tier == 'thorough'
        for fmt in lab.FORMATS:
            for cmd in COMMANDS:
                n = ((4 if deep else 2) if cmd in ('calc', 'stack') else
                     (2 if deep else 1))
                for a in assignments(KINDS[fmt], 4, n):
                    yield {'k': 'files', 'fmt': fmt, 'cmd': cmd, 'dmg': a}
                for kind in KINDS[fmt][1:]:
                    yield {'k': 'files', 'fmt': fmt, 'cmd': cmd,
                           'dmg': [kind] * 4}
            for cmd in COMMANDS + ('plot-profile',):
                for kind in WHOLE if fmt == 'H5' else ('missing', 'empty'):
                    yield {'k': 'whole', 'fmt': fmt, 'cmd': cmd,
                           'kind': kind}
        for cmd in COMMANDS:
            for what in ('hdr', 'truncbin', 'emptybin'):
                yield {'k': 'qtrunc', 'cmd': cmd, 'what': what}
        for i, a in enumerate(assignments(ANSWERS, 4, 4 if deep else 2)):
            for fmt in lab.FORMATS if deep else lab.FORMATS[i % 3:][:1]:
                yield {'k': 'answers', 'fmt': fmt, 'ans': a}
        for end, i, fmt in itertools.product((0, 1), range(4), lab.FORMATS):
            yield {'k': 'end', 'end': end, 'i': i, 'fmt': fmt}
        for src, win, cmd in itertools.product(
                ('file', 'glob', 'glob2', 'abs', 'plugin', 'client'),
                ([-20, 40], [-10, 33.3], [-35, -2]),
                ('data', 'data calc')):
            if cmd == 'data' or win[0] == -20:
                yield {'k': 'source', 'src': src, 'win': win, 'cmd': cmd}
            if cmd == 'data':
                for pad in (0, 0.17, 3):
                    yield {'k': 'source', 'src': src, 'win': win, 'cmd': cmd,
                           'pad': pad}
        for what in ('ok', 'spaces', 'package', 'appends', 'hasdot',
                     'hasdotfirst', 'importerror', 'syntaxerror', 'nomodule',
                     'nofunc', 'nocolon', 'none', 'inserts', 'onpath',
                     'event'):
            for n in (1, 2):
                yield {'k': 'plugin', 'what': what, 'n': n}

    def run(self, case, c):
        getattr(self, 'run_' + case['k'])(case, c)
        c.state(case)

    def conf(self, c, **kw):
        os.chdir(c.tmp)
        d = lab.conf(DIR, **kw)
        with open('conf.json', 'w') as f:
            json.dump(d, f)

    def damage(self, fmt, root, rec, kind):
        """Damage files of record"""
        sta, time = recname(*rec)
        if kind == 'ok':
            return
        if fmt == 'H5':
            import h5py
            with h5py.File(root + '.h5', 'a') as f:
                g = f['waveforms/%s/%s' % (sta, time)]
                for k in sorted(g)[:{'one': 1, 'two': 2,
                                     'missing': 3}[kind]]:
                    del g[k]
                if kind == 'missing':
                    del f['waveforms/%s/%s' % (sta, time)]
            return
        fs = sorted(glob.glob(os.path.join(root, sta, '*%s.*' % time)))
        if fmt == 'Q':
            qbn, qhd = fs
            if kind in ('missing', 'nohdr'):
                os.remove(qhd)
            if kind in ('missing', 'nobin'):
                os.remove(qbn)
            if kind == 'empty':
                open(qhd, 'w').close()
            if kind == 'garbage':
                with open(qhd, 'w') as f:
                    f.write('hello world\n' * 50)
            return
        if kind in ('missing', 'one', 'two'):
            for f in fs[:{'one': 1, 'two': 2, 'missing': 3}[kind]]:
                os.remove(f)
        elif kind == 'garbage':
            with open(fs[1], 'w') as f:
                f.write('hello world\n' * 200)
        else:
            with open(fs[1], 'r+b') as f:
                f.truncate({'empty': 0, 'trunchdr': 300}.get(
                    kind, os.path.getsize(fs[1]) * 2 // 3))

    def inputs(self, c, fmt, cmd):
        root = ('raw_' if cmd.startswith('calc') else 'rf_') + fmt
        if fmt == 'H5':
            shutil.copy(os.path.join(DIR, root + '.h5'), 'in.h5')
        else:
            shutil.copytree(os.path.join(DIR, root), 'in')
        return 'raw' if cmd.startswith('calc') else 'rf'

    def results(self, cmd, records, partial):
        """Streams expected for records (library)"""
        from rf import RFStream
        from rf.profile import get_profile_boxes, profile
        stage = {'calc': 'calc', 'convert': 'calc'}.get(cmd, 'moveout')
        if cmd in ('stack', 'profile', 'plot'):
            stage = 'calc'
        sel = []
        for (e, s), st in zip(RECORDS, REF[stage]):
            if (e, s) in records:
                sel.append(st.copy())
            elif (e, s) in partial:
                sel.append(type(st)([tr.copy() for tr in st if
                                     tr.stats.channel[-1] in
                                     partial[(e, s)]]))
        if cmd == 'stack':
            d = {}
            for st in sel:
                d.setdefault(lab.station(st[0]), RFStream()).extend(st)
            return [st.stack() for st in d.values()]
        if cmd == 'profile':
            allst = sum(sel, RFStream())
            return [profile(allst, get_profile_boxes(**lab.BOXES))]
        return sel

    def run_files(self, case, c):
        fmt, cmd = case['fmt'], case['cmd']
        self.conf(c, format=fmt)
        self.inputs(c, fmt, cmd)
        ok, partial, gone = set(), {}, set()
        for rec, kind in zip(RECORDS, case['dmg']):
            self.damage(fmt, 'in', rec, kind)
            comps = 'ENZ' if cmd.startswith('calc') else 'LQT'
            if kind == 'ok':
                ok.add(rec)
            elif fmt != 'Q' and kind in ('one', 'two'):
                partial[rec] = comps[1 if kind == 'one' else 2:]
            elif fmt == 'SAC' and kind != 'missing':
                partial[rec] = comps[0] + comps[2]
            else:
                gone.add(rec)
        before = {f: os.path.getsize(f) for f in lab.tree('.')}
        args = cmd.split() + ['in', 'out']
        newfmt = fmt
        if cmd == 'convert':
            newfmt = {'Q': 'SAC', 'SAC': 'H5', 'H5': 'Q'}[fmt]
            args.append(newfmt)
        c.op()
        c.trace()
        code, out, err = lab.cli(args)
        msg = 'rf %s with records %s (%s)' % (' '.join(args), case['dmg'],
                                              fmt)
        c.check(code in (0, None), msg + ': %r %s', code, err[-300:])
        after = {f: os.path.getsize(f) for f in lab.tree('.')}
        c.eq({f: after.get(f) for f in before}, before, msg + ': input')
        if cmd == 'plot':
            self.judge_plot(c, ok, partial, msg)
        elif cmd in ('stack', 'profile'):
            self.judge_some(c, cmd, ok, partial, newfmt, msg)
        else:
            self.judge_records(c, cmd, ok, partial, gone, fmt, newfmt, msg)

    def judge_records(self, c, cmd, ok, partial, gone, fmt, newfmt, msg):
        # drop results of partly damaged records
        from rf import read_rf, RFStream
        if newfmt != 'H5':
            for rec in partial:
                sta, time = recname(*rec)
                for f in glob.glob('out/%s/*%s.*' % (sta, time)):
                    os.remove(f)
        elif os.path.exists('out.h5'):
            import h5py
            with h5py.File('out.h5', 'a') as f:
                for rec in partial:
                    g = 'waveforms/%s/%s' % recname(*rec)
                    if g in f:
                        del f[g]
                n = sum(len(g) for s in f.get('waveforms', {}).values()
                        for g in s.values())
            if n == 0:
                os.remove('out.h5')
        want = self.results(cmd, ok, {})
        lab.judge(c, want, 'out', newfmt, None,
                  1e-9 if fmt == newfmt == 'H5' else 3e-3, msg,
                  'moveout' if 'moveout' in cmd else 'calc')

    def judge_some(self, c, cmd, ok, partial, fmt, msg):
        """Results with or without intact components of damaged records"""
        errors = []
        for sub in subsets(sorted(partial)):
            try:
                want = self.results(cmd, ok, {r: partial[r] for r in sub})
            except (ValueError, IndexError):
                want = []
            try:
                lab.judge(c, want, 'out', fmt, cmd,
                          1e-9 if fmt == 'H5' else 3e-3, msg, 'calc')
            except Violation as ex:
                errors.append(str(ex))
            else:
                return
        c.fail(errors[-1])

    def judge_plot(self, c, ok, partial, msg):
        want, maybe = set(), set()
        for (e, s), st in zip(RECORDS, REF['calc']):
            for tr in st:
                if (e, s) in ok:
                    want.add('out/%s.pdf' % tr.id)
                elif tr.stats.channel[-1] in partial.get((e, s), ''):
                    maybe.add('out/%s.pdf' % tr.id)
        have = {f for f in lab.tree('.') if f.startswith('out/')}
        c.check(want <= have <= want | maybe, msg + ': figures %s, '
                'expected %s', sorted(have), sorted(want))
        for f in have:
            c.check(os.path.getsize(f) > 1000, msg + ': empty ' + f)
        c.outcome(len(want), len(maybe))

    def run_whole(self, case, c):
        """Input missing or empty as a whole"""
        fmt, cmd, kind = case['fmt'], case['cmd'], case['kind']
        if cmd == 'plot-profile':
            return   # a single file
        self.conf(c, format=fmt)
        self.inputs(c, fmt, cmd)
        if fmt != 'H5':
            shutil.rmtree(os.path.join(c.tmp, 'in'))
            if kind == 'empty':
                os.mkdir('in')
        elif kind == 'missing':
            os.remove('in.h5')
        elif kind == 'garbage':
            with open('in.h5', 'w') as f:
                f.write('hello\n' * 1000)
        else:
            with open('in.h5', 'r+b') as f:
                f.truncate({'empty': 0, 'trunc100': 100}.get(
                    kind, os.path.getsize('in.h5') // 2))
        before = lab.tree('.')
        args = cmd.split() + ['in', 'out']
        if cmd == 'convert':
            args.append('SAC')
        c.op()
        code, out, err = lab.cli(args)
        msg = 'rf %s with %s input (%s)' % (' '.join(args), kind, fmt)
        c.check(code in (0, None), msg + ': %r %s', code, err[-300:])
        c.eq(lab.tree('.'), before, msg + ': files')
        c.outcome(kind)

    def run_qtrunc(self, case, c):
        """Files of Q format which are truncated, but can be parsed"""
        cmd, what = case['cmd'], case['what']
        self.conf(c, format='Q')
        self.inputs(c, 'Q', cmd)
        sta, time = recname(*RECORDS[0])
        f = 'in/%s/%s_%s.Q%s' % (sta, sta, time,
                                 'HD' if what == 'hdr' else 'BN')
        with open(f, 'r+b') as fh:
            fh.truncate({'hdr': 300, 'emptybin': 0}.get(
                what, os.path.getsize(f) * 2 // 3 // 4 * 4))
        args = cmd.split() + ['in', 'out']
        if cmd == 'convert':
            args.append('SAC')
        c.op()
        code, out, err = lab.cli(args)
        msg = 'rf %s with truncated file of one record (%s)' % (cmd, what)
        if code not in (0, None):
            c.finding('q_truncated', msg + ': %r' % code)
            return
        for g in glob.glob('out/%s/*%s*' % (sta, time)):
            os.remove(g)
        if cmd in ('calc', 'calc moveout', 'moveout', 'convert'):
            lab.judge(c, self.results(cmd, set(RECORDS[1:]), {}), 'out',
                      'SAC' if cmd == 'convert' else 'Q', None, 3e-3, msg,
                      'moveout' if 'moveout' in cmd else 'calc')

    # requests

    def plugin(self, c, func, name='mcplugin', module=True):
        """Make func available as plugin"""
        mod = types.ModuleType(name)
        mod.get = func
        sys.modules[name] = mod

    def same_requests(self, c, got, want, msg):
        def key(kw):
            return tuple(str(kw.get(k)) for k in (
                'network', 'station', 'location', 'channel', 'starttime',
                'endtime'))
        c.eq([key(kw) for kw in got], [key(kw) for kw in want],
             msg + ': requests')
        for kw in got:
            c.check(set(kw) - {'event'} == {
                'network', 'station', 'location', 'channel', 'starttime',
                'endtime'}, msg + ': arguments of request %s', sorted(kw))

    def source(self):
        st = lab_stream()

        def get(**kw):
            return st.select(kw['network'], kw['station'], kw['location'],
                             kw['channel']).slice(
                kw['starttime'], kw['endtime']).copy()
        return get

    def run_answers(self, case, c):
        from obspy import Stream
        fmt, ans = case['fmt'], case['ans']
        self.conf(c, format=fmt, data='plugin', plugin='mcplugin:get')
        get = self.source()
        seen = []

        def plugin(**kw):
            i = len(seen)
            seen.append(kw)
            a = ans[i] if i < 4 else 'ok'
            if a == 'exc':
                raise IOError('no data')
            if a == 'sysexc':
                raise Odd()
            if a == 'key':
                raise KeyError('starttime')
            if a == 'none':
                return None
            if a == 'empty':
                return Stream()
            st = get(**kw)
            if a == 'two':
                return st[:2]
            if a == 'object':
                return Stream(st.traces[:1])
            return st
        self.plugin(c, plugin)
        c.op()
        c.trace()
        try:
            code, out, err = lab.cli(['data', 'calc', 'out'])
        finally:
            sys.modules.pop('mcplugin', None)
        msg = 'rf data calc with answers %s (%s)' % (ans, fmt)
        c.check(code in (0, None), msg + ': %r %s', code, err[-300:])
        self.same_requests(c, seen, REF['requests'], msg)
        order = [self.record_of(kw) for kw in REF['requests']]
        ok = {r for r, a in zip(order, ans) if a == 'ok'}
        lab.judge(c, self.results('calc', ok, {}), 'out', fmt, None,
                  1e-9 if fmt == 'H5' else 3e-3, msg)
        nfail = sum(a in ('exc', 'sysexc', 'key') for a in ans)
        c.check(out.count('error while retrieving data') >= nfail,
                msg + ': %d failing requests, output %s', nfail, out)
        for kw, a in zip(seen, ans):
            if a in ('exc', 'sysexc', 'key'):
                c.check('.'.join((kw['network'], kw['station'],
                                  kw['location'], kw['channel'])) in out,
                        msg + ': id of failed request')

    def record_of(self, kw):
        s = [x[0] for x in lab.SITES].index(kw['station'])
        t = [abs(kw['starttime'] - x[3]) for x in lab.EVENTS[:2]]
        return (int(np.argmin(t)), s)

    def run_end(self, case, c):
        """Ctrl+C and sys.exit are not taken for failing requests"""
        fmt = case['fmt']
        self.conf(c, format=fmt, data='plugin', plugin='mcplugin:get')
        get = self.source()
        seen = []
        exc = ENDS[case['end']]

        def plugin(**kw):
            seen.append(kw)
            if len(seen) == case['i'] + 1:
                raise exc(3)
            return get(**kw)
        self.plugin(c, plugin)
        c.op()
        msg = '%s in request %d (%s)' % (exc.__name__, case['i'], fmt)
        ended = False
        try:
            code, out, err = lab.cli(['data', 'out'])
            ended = code == 3
        except KeyboardInterrupt:
            ended = True
        finally:
            sys.modules.pop('mcplugin', None)
        c.check(ended, msg + ': ignored')
        c.eq(len(seen), case['i'] + 1, msg + ': requests')
        order = [self.record_of(kw) for kw in REF['requests']]
        lab.judge(c, self.results_data(set(order[:case['i']])), 'out', fmt,
                  None, 1e-9 if fmt == 'H5' else 3e-3, msg)

    def results_data(self, records):
        return [st for r, st in zip(RECORDS, REF['data']) if r in records]

    def run_source(self, case, c):
        src, win, cmd = case['src'], case['win'], case['cmd']
        from rf import iter_event_data
        opts = dict(lab.OPTIONS, request_window=win)
        if 'pad' in case:
            opts['pad'] = case['pad']
        inv = lab.inventory(extra=False, sites=SITES)
        get = self.source()
        want, seen = [], []

        def gather(**kw):
            want.append(kw)
            return get(**kw)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ref = list(iter_event_data(lab.catalog(), inv, gather, **opts))
            if 'calc' in cmd:
                for st in ref:
                    st.rf(**lab.RF)

        def plugin(**kw):
            seen.append(kw)
            kw = dict(kw)
            kw.pop('event', None)
            return get(**kw)
        kw = {'file': dict(data=os.path.join(DIR, 'data.mseed')),
              'abs': dict(data=os.path.join(DIR, 'data.m*')),
              'glob': dict(data='p*.ms'), 'glob2': dict(data='*/part[12].ms'),
              'plugin': dict(data='plugin', plugin='mcplugin:get'),
              'client': dict(data='mcfake', client_options={
                  'user': 'x', 'n': [1, 2]})}[src]
        self.conf(c, options=opts, **kw)
        os.mkdir('sub')
        if src in ('glob', 'glob2'):
            for n in ('part1.ms', 'part2.ms'):
                shutil.copy(os.path.join(DIR, n), '.' if src == 'glob' else
                            'sub')
        made = []

        class Client(object):
            def __init__(self, **kw):
                made.append(kw)

            def get_waveforms(self, **kw):
                seen.append(kw)
                return get(**kw)
        mod = types.ModuleType('obspy.clients.mcfake')
        mod.Client = Client
        self.plugin(c, plugin)
        sys.modules['obspy.clients.mcfake'] = mod
        c.op()
        c.trace()
        try:
            code, out, err = lab.cli(cmd.split() + ['out'])
        finally:
            sys.modules.pop('mcplugin', None)
            sys.modules.pop('obspy.clients.mcfake', None)
        msg = 'rf %s from %s, window %s' % (cmd, src, win)
        c.check(code in (0, None), msg + ': %r %s', code, err[-300:])
        if src in ('plugin', 'client'):
            self.same_requests(c, seen, want, msg)
        else:
            c.eq(seen, [], msg + ': requests')
        if src == 'client':
            c.eq(made, [{'user': 'x', 'n': [1, 2]}], msg + ': client')
            c.check(not any('event' in kw for kw in seen),
                    msg + ': event passed to client')
        else:
            c.eq(made, [], msg + ': client')
        c.check(len(ref) == 4, 'model: records')
        lab.judge(c, ref, 'out', 'Q', None, 3e-3, msg)

    def run_plugin(self, case, c):
        what = case['what']
        os.chdir(c.tmp)
        name = 'mcplug_%d_%s' % (os.getpid(), what)
        with open('src.py', 'w') as f:
            f.write('')
        body = ('import sys, os\nfrom obspy import read\n'
                'st = read(%r)\n'
                'def get(network, station, location, channel, starttime, '
                'endtime, event=None):\n'
                '    return st.select(network, station, location, channel)'
                '.slice(starttime, endtime).copy()\n' % os.path.join(
                    DIR, 'data.mseed'))
        own, mname = [], name
        plugin = name + ':get'
        if what == 'spaces':
            plugin = ' %s : get ' % name
        elif what == 'appends':
            body += 'sys.path.append("/mc/extra")\n'
            own = ['/mc/extra']
        elif what == 'inserts':
            body += 'sys.path.insert(0, "/mc/extra")\n'
            own = ['/mc/extra']
        elif what == 'importerror':
            body += 'import mc_does_not_exist\n'
        elif what == 'syntaxerror':
            body += 'x = = 3\n'
        elif what == 'nofunc':
            plugin = name + ':nothere'
        elif what == 'nocolon':
            plugin = name
        elif what == 'none':
            plugin = None
        elif what == 'event':
            # example in documentation of the configuration
            body += ('def get(f=get, **kwargs):\n    kwargs.pop("event")\n'
                     '    return f(**kwargs)\n')
        fname = name + '.py'
        if what == 'package':
            os.mkdir(name)
            open(os.path.join(name, '__init__.py'), 'w').close()
            fname = os.path.join(name, 'inner.py')
            plugin = name + '.inner : get'
        folder = c.tmp
        if what == 'onpath':
            os.mkdir('lib')
            folder = os.path.join(c.tmp, 'lib')
        if what != 'nomodule':
            with open(os.path.join(folder, fname), 'w') as f:
                f.write(body)
        self.conf(c, data='plugin', plugin=plugin)
        before = list(sys.path)
        ok = what in ('ok', 'spaces', 'package', 'appends', 'hasdot',
                      'hasdotfirst', 'inserts', 'onpath', 'event')
        msg = 'plugin ' + what
        import importlib
        importlib.invalidate_caches()
        try:
            if what == 'hasdot':
                sys.path.append('.')
            elif what == 'hasdotfirst':
                sys.path.insert(0, '.')
            elif what == 'onpath':
                sys.path.append(folder)
            start = list(sys.path)
            for n in range(case['n']):
                out0 = 'out%d' % n
                c.op()
                c.trace()
                code, out, err = lab.cli(['data', out0])
                c.check(code in (0, None), msg + ': %r', code)
                path = [p for p in sys.path if p not in own]
                c.eq(path, start, msg + ': module search path')
                if own:
                    c.eq(sys.path.count(own[0]), 1,
                         msg + ': path added by plugin')
                if what == 'event' and not lab.tree('.').count(
                        out0) and out.count("'event'") == 4:
                    c.finding('plugin_event', 'plugin as shown in the '
                              'example configuration gets no argument event')
                elif ok:
                    lab.judge(c, self.results_data(set(RECORDS)), out0, 'Q',
                              None, 3e-3, msg)
                else:
                    c.check(out.strip(), msg + ': no message')
                    c.eq([f for f in lab.tree('.') if f.startswith('out')],
                         [], msg + ': files')
        finally:
            sys.path[:] = before
            for k in list(sys.modules):
                if k.startswith('mcplug_'):
                    del sys.modules[k]
        c.outcome(what)


_ST = []


def lab_stream():
    if not _ST:
        from obspy import read
        _ST.append(read(os.path.join(DIR, 'data.mseed')))
    return _ST[0]


CHECK = C()
