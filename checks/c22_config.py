"""C22: batch configuration and command line are interpreted as documented"""
import contextlib
import copy
import filecmp
import inspect
import io
import itertools
import json
import os
import sys
import types
import warnings

import numpy as np

from mc import batchlab as lab
from mc.engine import Check

DIR = None
CHARS = ('"', '\\', '#', '\n', 'a', ' ', ',')
JOINTS = ('["%s"]', '[%s]', '{"a": %s 1}', '%s', '{"a": "x" %s}')
LINES = ('# comment', '#"x": 1,', '"n%d": "a#b",', '"n%d": 1, # "c": 2,',
         '"n%d": "a\\\\", # x', '"n%d": "q\\"#", # "', '', '  # } { "',
         '"n%d": [1, # x', '2],', '"n%d": "it\'s # \'", #\'')
SOURCES = ('none', 'file', 'cli', 'both')
COMMANDS = ('data', 'data calc', 'data moveout', 'data calc moveout',
            'calc', 'calc moveout', 'moveout', 'convert', 'stack',
            'profile', 'plot', 'plot-profile')
# values in configuration file and on command line
VALUES = {
    'phase': ('S', 'PP'), 'moveout_phase': ('Ppps', 'Ppss'),
    'format': ('SAC', 'H5'),
    'options': ({'phase': 'Pdiff', 'pp_depth': 40},
                {'request_window': [-10, 20], 'dist_range': [20, 95]}),
    'rf': ({'filter': {'type': 'bandpass', 'freqmin': 0.1, 'freqmax': 1}},
           {'deconvolve': 'waterlevel', 'trim': [-5, 20]}),
    'moveout': ({'phase': 'Ps', 'ref': 5.5}, {'ref': 7}),
    'boxbins': ([0, 100, 5], [-10.5, 30, 3]),
    'boxes': ({'latlon0': [-21, -70], 'azimuth': 90, 'bins': [0, 5, 10]},
              {'latlon0': [-22, -69.5], 'azimuth': 10, 'bins': [0, 50],
               'width': 100}),
    'profile': ({'crs': 1}, {'crs': 2}),
    'plot': ({'trim': [-5, 22]}, {'fillcolors': ['red', None],
                                  'show_vlines': True}),
    'plot_profile': ({'scale': 2.5}, {'top': 'hist', 'trim': [0, 10]}),
    'client_options': ({'user': 'me'}, {'user': 'you', 'debug': True}),
    'events': ('ev1.xml', 'ev2.xml'), 'inventory': ('st1.xml', 'st2.xml'),
    'data': ('data?.mseed', 'mcfake')}
DEFAULT = {'events': 'ev0.xml', 'inventory': 'st0.xml', 'data': 'data.ms',
           'boxes': {'latlon0': [-20, -69], 'azimuth': 0, 'bins': [0, 7]}}
EVENTS = {'ev0.xml': (0, 1), 'ev1.xml': (0,), 'ev2.xml': (1,)}
SITES = {'st0.xml': (0, 1, 2), 'st1.xml': (1,), 'st2.xml': (0, 2)}
FACTOR = {'data.ms': 1., 'data?.mseed': 2., 'mcfake': 3.}
PAIRS = (('phase', 'options'), ('moveout_phase', 'moveout'),
         ('boxbins', 'boxes'), ('data', 'client_options'),
         ('events', 'inventory'), ('format', 'inventory'),
         ('rf', 'moveout'), ('rf', 'options'), ('plot', 'plot_profile'),
         ('boxes', 'profile'))
LISTS = {'data': ('calc', 'moveout', 'data', 'x', 'stack'),
         'calc': ('moveout', 'calc', 'x')}
CMDARGS = {'convert': ['in', 'out', 'H5'], 'data': ['out']}


def strip(text):
    """Remove comments, character by character"""
    out, instr, esc, skip = [], False, False, False
    for ch in text:
        if skip:
            if ch != '\n':
                continue
            skip = False
        if instr:
            if esc:
                esc = False
            elif ch == '\\':
                esc = True
            elif ch == '"' or ch == '\n':
                instr = False
        elif ch == '"':
            instr = True
        elif ch == '#':
            skip = True
            continue
        out.append(ch)
    return ''.join(out)


@contextlib.contextmanager
def patched(*pairs):
    """Replace functions in all modules of rf and methods of RFStream"""
    undo = []
    for orig, repl in pairs:
        for name, mod in list(sys.modules.items()):
            if name == 'rf' or name.startswith('rf.'):
                for k, v in list(vars(mod).items()):
                    if v is orig:
                        undo.append((mod, k, v))
                        setattr(mod, k, repl)
    try:
        yield
    finally:
        for mod, k, v in undo:
            setattr(mod, k, v)


def bound(func, args, kw, drop=()):
    b = inspect.signature(func).bind(*args, **kw)
    b.apply_defaults()
    d = dict(b.arguments)
    d.update(d.pop('kwargs', {}))
    d.update(d.pop('rfstats_kwargs', {}))
    return {k: copy.deepcopy(v) for k, v in d.items() if k not in drop}


def defaults(func, drop=()):
    return {k: p.default for k, p in inspect.signature(
        func).parameters.items() if p.default is not p.empty and
        k not in drop}


class Client(object):
    made = []

    def __init__(self, **kw):
        Client.made.append(kw)

    def get_waveforms(self, **kw):
        from obspy import read
        st = read(os.path.join(DIR, 'data3.ms'))
        return st.select(kw['network'], kw['station'], kw['location'],
                         kw['channel']).slice(kw['starttime'], kw['endtime'])


class C(Check):
    id = 'C22'
    rule = ('configuration texts: all strings over %r in %d frames and all '
            'sequences of %d lines; all sources %s of every option and of '
            'interacting pairs of options for all commands; all lists of sub '
            'commands; all commands with every unreadable file; create and '
            'print' % (CHARS, len(JOINTS), len(LINES), SOURCES))
    bounds = {'quick': 'strings of 5 characters, texts of 3 lines, single '
                       'options and 10 pairs, 3 sub commands',
              'thorough': 'strings of 7 characters, texts of 4 lines, all '
                          'pairs of options, 4 sub commands'}
    assumptions = ('phase and moveout_phase take precedence over the phase '
                   'inside of options and moveout',)
    timeout = 600

    def setup(self):
        global DIR
        DIR = os.path.abspath('cfg')
        os.makedirs(DIR)
        old = os.getcwd()
        os.chdir(DIR)
        try:
            for name, evs in EVENTS.items():
                cat = lab.catalog()
                type(cat)([cat[i] for i in evs]).write(name, 'QUAKEML')
            for name, sites in SITES.items():
                lab.inventory(extra=False, sites=sites).write(
                    name, 'STATIONXML')
            st = lab.waveforms(phases='P')
            for name, f in (('data.ms', 1), ('data3.ms', 3)):
                st2 = st.copy()
                for tr in st2:
                    tr.data = tr.data * f
                st2.write(name, 'MSEED')
            half = len(st) // 2
            for tr in st:
                tr.data = tr.data * 2
            st[:half].write('data1.mseed', 'MSEED')
            st[half:].write('data2.mseed', 'MSEED')
            for fmt in lab.FORMATS:
                conf = dict(DEFAULT, format=fmt, options=lab.OPTIONS,
                            rf=lab.RF, boxes=lab.BOXES)
                with open('c.json', 'w') as f:
                    json.dump(conf, f)
                for cmd in ('data calc in', 'profile in prof'):
                    r = lab.cli(['-c', 'c.json'] + cmd.split())
                    if r[0] not in (0, None):
                        raise RuntimeError(r)
            for name in ('bad.xml', 'bad.json'):
                with open(name, 'w') as f:
                    f.write('{"format": "Q"')
            open('empty.xml', 'w').close()
        finally:
            os.chdir(old)

    def cases(self, tier):
        deep = tier == 'thorough'
        n = 7 if deep else 5
        for a in itertools.product(CHARS, repeat=3):
            yield {'k': 'chars', 'head': a, 'n': n}
        for a in itertools.product(range(len(LINES)), repeat=1):
            yield {'k': 'lines', 'head': a, 'n': 4 if deep else 3}
        for cmd in COMMANDS:
            yield {'k': 'opt', 'cmd': cmd, 'src': {}}
            for o in VALUES:
                for s in SOURCES[1:]:
                    yield {'k': 'opt', 'cmd': cmd, 'src': {o: s}}
            pairs = itertools.combinations(sorted(VALUES), 2) if deep \
                else PAIRS
            for a, b in pairs:
                for s, t in itertools.product(SOURCES[1:], repeat=2):
                    yield {'k': 'opt', 'cmd': cmd, 'src': {a: s, b: t}}
            yield {'k': 'opt', 'cmd': cmd, 'src': {o: 'both'
                                                   for o in VALUES}}
            yield {'k': 'noconf', 'cmd': cmd}
            for what in ('nofile', 'badfile', 'unknown', 'unknown-cli',
                         'unknown-dict', 'badjson', 'extra', 'missing',
                         'data'):
                yield {'k': 'refuse', 'cmd': cmd, 'what': what}
            for what in ('events', 'inventory'):
                for how in ('bad.xml', 'empty.xml', 'nothere.xml', 'absent',
                            'cfg', 'format'):
                    for src in SOURCES[1:]:
                        yield {'k': 'unreadable', 'cmd': cmd, 'what': what,
                               'how': how, 'src': src}
            yield {'k': 'pair', 'cmd': cmd}
            yield {'k': 'api', 'cmd': cmd}
        for cmd, words in LISTS.items():
            for n in range(5 if deep else 4):
                for w in itertools.product(words, repeat=n):
                    yield {'k': 'list', 'cmd': cmd, 'words': w}
        for conf in (None, 'conf.json', 'other.cfg', 'sub/my.json'):
            for tut in ('', '-t', '--tutorial'):
                yield {'k': 'create', 'conf': conf, 'tut': tut}
        for obj in itertools.product(
                ('events', 'stations', 'in.h5', 'prof.QHD',
                 'in/*/*PB02*.QHD', 'data.ms'), repeat=2):
            yield {'k': 'print', 'obj': obj[:1] if obj[0] in (
                'events', 'stations') else obj}
        for conf in ('null', 'None', 'none', ''):
            for obj in ('events', 'stations', 'in.h5'):
                yield {'k': 'printnone', 'obj': obj, 'conf': conf}

    def run(self, case, c):
        getattr(self, 'run_' + case['k'])(case, c)
        c.state(case)

    # configuration texts

    def compare(self, c, text):
        from rf.batch import ConfigJSONDecoder
        c.op()
        try:
            want = json.loads(strip(text))
        except ValueError:
            want = ValueError
        try:
            got = json.loads(text, cls=ConfigJSONDecoder)
        except ValueError:
            got = ValueError
        c.nchecks += 1
        if got != want:
            c.fail('configuration %r: got %r, expected %r' % (
                text, got, want))
        if want is not ValueError:
            c.outcome(repr(want))

    def run_chars(self, case, c):
        for rest in range(case['n'] - len(case['head']) + 1):
            for tail in itertools.product(CHARS, repeat=rest):
                s = ''.join(case['head'] + tail)
                for frame in JOINTS:
                    self.compare(c, frame % s)

    def run_lines(self, case, c):
        for tail in itertools.product(range(len(LINES)),
                                      repeat=case['n'] - 1):
            lines = [LINES[i] % k if '%' in LINES[i] else LINES[i]
                     for k, i in enumerate(case['head'] + tail)]
            for end in ('"z": 0}', '"z": 0 # }\n}#', '"z": "#"}'):
                for nl in ('\n', '\r\n'):
                    self.compare(c, nl.join(['{'] + lines + [end]))

    # options

    def prepare(self, c):
        """Working directory with input"""
        os.chdir(c.tmp)
        for n in os.listdir(DIR):
            os.symlink(os.path.join(DIR, n), n)

    def record(self, c, args, call=None):
        """Run command with recording stand-ins for the library"""
        import rf
        from rf import util, profile, imaging, RFStream
        log = []
        o_iter, o_boxes, o_prof = (util.iter_event_data,
                                   profile.get_profile_boxes,
                                   profile.profile)
        o_plot, o_plotp = imaging.plot_rf, imaging.plot_profile
        o_rf, o_mo, o_stack = RFStream.rf, RFStream.moveout, RFStream.stack

        def iter_event_data(*a, **kw):
            d = bound(o_iter, a, kw, ('pbar',))
            gw = kw.get('get_waveforms', a[2] if len(a) > 2 else None)
            d.pop('get_waveforms')
            d['events'] = [str((e.preferred_origin() or e.origins[0]).time)
                           for e in d['events']]
            d['inventory'] = sorted(d['inventory'].get_contents()['channels'])
            t = lab.TE + 380
            st = gw(network='CX', station='PB02', location='00',
                    channel='BHZ', starttime=t, endtime=t + 10)
            d['sum'] = float(np.sum(np.abs(st[0].data.astype(float)))) \
                if st else None
            log.append(('iter', d))
            for f in ('PB01.', 'PB02.00'):
                yield rf.read_rf(os.path.join(
                    DIR, 'in', 'CX.' + f,
                    'CX.%s_2011-02-25T13:15:38.QHD' % f))

        def key(st):
            return sorted('%s %s' % (tr.id, str(tr.stats.event_time)[:19])
                          for tr in st)

        def rf_(self, *a, **kw):
            log.append(('rf', key(self), bound(o_rf, (self,) + a, kw,
                                               ('self',))))
            return self

        def moveout(self, *a, **kw):
            log.append(('moveout', key(self), bound(
                o_mo, (self,) + a, kw, ('self',))))
            return self

        def stack(self, *a, **kw):
            log.append(('stack', key(self)))
            return o_stack(self, *a, **kw)

        def boxes(*a, **kw):
            d = bound(o_boxes, a, kw)
            d['bins'] = [float(x) for x in d['bins']]
            log.append(('boxes', d))
            return 'boxes'

        def prof(*a, **kw):
            d = bound(o_prof, [()], kw, ('stream',)) if not a else bound(
                o_prof, ((),) + tuple(a[1:]), kw, ('stream',))
            log.append(('profile', key(a[0] if a else kw['stream']), d))
            return RFStream()

        def plot(*a, **kw):
            d = bound(o_plot, a, kw)
            st = d.pop('stream')
            d['fname'] = str(d['fname'])
            log.append(('plot', [tr.id for tr in st], [
                float(tr.stats.back_azimuth) for tr in st], d))

        def plotp(*a, **kw):
            d = bound(o_plotp, a, kw)
            st = d.pop('profile')
            d['fname'] = str(d['fname'])
            log.append(('plotp', sorted((tr.stats.channel, round(
                tr.stats.box_pos, 3)) for tr in st), d))

        Client.made = []
        mod = types.ModuleType('obspy.clients.mcfake')
        mod.Client = Client
        sys.modules['obspy.clients.mcfake'] = mod
        RFStream.rf, RFStream.moveout, RFStream.stack = rf_, moveout, stack
        try:
            with patched((o_iter, iter_event_data), (o_boxes, boxes),
                         (o_prof, prof), (o_plot, plot), (o_plotp, plotp)):
                c.op()
                if call is None:
                    code, out, err = lab.cli(args)
                else:
                    code, out, err = 0, '', ''
                    with contextlib.redirect_stderr(io.StringIO()):
                        try:
                            call()
                        except Exception as ex:
                            code = ex
        finally:
            RFStream.rf, RFStream.moveout, RFStream.stack = (o_rf, o_mo,
                                                             o_stack)
            sys.modules.pop('obspy.clients.mcfake', None)
        if Client.made:
            log.append(('client', copy.deepcopy(Client.made)))
        return code, out, err, log

    def expect(self, cmd, opt):
        """Calls of library functions (model)"""
        from rf import util, profile, imaging, RFStream
        opt = copy.deepcopy(opt)
        if 'phase' in opt:
            opt.setdefault('options', {})['phase'] = opt['phase']
        if 'moveout_phase' in opt:
            opt.setdefault('moveout', {})['phase'] = opt['moveout_phase']
        if 'boxbins' in opt:
            a, b, n = opt['boxbins']
            opt['boxes']['bins'] = [a + (b - a) * i / (n - 1.)
                                    for i in range(n)]
        words = cmd.split()
        sites = [lab.SITES[i][:2] for i in SITES[opt['inventory']]]
        events = [lab.EVENTS[i][3] for i in EVENTS[opt['events']]]
        comps = dict(zip('ZNE', 'QTL'))

        def key(sta, t):
            return sorted('CX.%s.%s.BH%s %s' % (sta + (k, str(t)[:19]))
                          for k in comps.values())
        log = []
        if words[0] == 'data':
            d = defaults(util.iter_event_data, ('pbar',))
            d.update(opt.get('options', {}))
            d['events'] = [str(t) for t in events]
            d['inventory'] = sorted('CX.%s.%s.BH%s' % (s + (k,))
                                    for s in sites for k in comps)
            d['sum'] = FACTOR[opt['data']]
            log.append(('iter', d))
            streams = [(('PB01', ''), lab.TE), (('PB02', '00'), lab.TE)]
            if opt['data'] == 'mcfake':
                log.append(('client', [opt.get('client_options', {})]))
        elif words[0] in ('stack', 'plot'):
            streams = [(s, None) for s in sites]
        else:
            streams = [(s, t) for t in events for s in sites]
        for s, t in streams:
            for w in words:
                if w == 'calc':
                    log.append(('rf', key(s, t), dict(
                        defaults(RFStream.rf), **opt.get('rf', {}))))
                elif w == 'moveout':
                    log.append(('moveout', key(s, t), dict(
                        defaults(RFStream.moveout),
                        **opt.get('moveout', {}))))
                elif w == 'stack':
                    log.append(('stack', sorted(sum((
                        key(s, e[3]) for e in lab.EVENTS[:2]), []))))
                elif w == 'plot':
                    for k in comps.values():
                        log.append(('plot', dict(
                            defaults(imaging.plot_rf), **dict(
                                opt.get('plot', {}),
                                fname='out/CX.%s.%s.BH%s.pdf' % (s + (k,))))
                        ))
        if words[0] == 'profile':
            log.append(('boxes', dict(defaults(profile.get_profile_boxes),
                                      **opt['boxes'])))
            log.append(('profile', sorted(sum((key(*x) for x in streams),
                                              [])),
                        dict(defaults(profile.profile), boxes='boxes',
                             **opt.get('profile', {}))))
        if words[0] == 'plot-profile':
            for k in comps.values():
                log.append(('plotp', dict(
                    defaults(imaging.plot_profile), **dict(
                        opt.get('plot_profile', {}),
                        fname='out/profile_%s.pdf' % k))))
        # files
        fmt = opt.get('format', 'Q')
        if words[0] == 'convert':
            fmt = 'H5'
        names = set()
        if words[0] in ('data', 'calc', 'moveout', 'convert', 'stack'):
            if fmt == 'H5':
                names.add('out.h5')
            for s, t in streams if fmt != 'H5' else ():
                n = 'CX.%s.%s' % s
                time = '_' + str(t)[:19] if t else ''
                f = '' if words[0] == 'stack' else n + '/'
                if fmt == 'Q':
                    names |= {'out/%s%s%s.%s' % (f, n, time, e)
                              for e in ('QHD', 'QBN')}
                else:
                    names |= {'out/%s%s.BH%s%s.SAC' % (f, n, k, time)
                              for k in comps.values()}
        return log, sorted(names)

    def outfiles(self):
        return [f for f in lab.tree('.') if f.split('/')[0] in (
            'out', 'out.h5', 'out.QHD', 'out.QBN')]

    def match(self, c, msg, log, want, names, unit):
        order = [x[0] for x in log]
        c.eq(sorted(order), sorted(x[0] for x in want), msg + ': calls')
        if any(x in order for x in ('rf', 'moveout')):
            c.eq([x for x in order if x in ('rf', 'moveout')],
                 [x[0] for x in want if x[0] in ('rf', 'moveout')],
                 msg + ': order of calls')

        def s(x):
            return json.dumps(x, sort_keys=True, default=str)
        log = copy.deepcopy(log)
        chans = {}
        for x in log:
            if x[0] == 'iter':
                x[1]['sum'] = round(x[1]['sum'] / unit, 3)
            elif x[0] == 'plot':
                c.eq(len(set(x[1])), 1, msg + ': channels in one figure')
                c.eq(x[3]['fname'], 'out/%s.pdf' % x[1][0],
                     msg + ': channel of figure')
                c.eq(x[2], sorted(x[2]), msg + ': order of traces')
                c.eq(len(x[1]), 2, msg + ': number of traces')
            elif x[0] == 'plotp':
                c.eq(x[2]['fname'], 'out/profile_%s.pdf' % x[1][0][0][-1],
                     msg + ': component of figure')
                c.eq(len(set(ch for ch, _ in x[1])), 1, msg + ': components')
                chans[x[1][0][0]] = [p for _, p in x[1]]
        if chans:
            c.eq(len(set(map(repr, chans.values()))), 1, msg + ': boxes')
        log = [(x[0], x[-1]) if x[0] in ('plot', 'plotp') else x
               for x in log]
        for x in want:
            if x[0] == 'boxes':
                x[1]['bins'] = [float(b) for b in x[1]['bins']]
                for y in log:
                    if y[0] == 'boxes':
                        c.close(y[1]['bins'], x[1]['bins'], msg + ': bins',
                                atol=1e-9)
                        y[1]['bins'] = x[1]['bins']
        got, exp = sorted(map(s, log)), sorted(map(s, want))
        for a, b in zip(got, exp):
            c.check(a == b, msg + ': call %.500s, expected %.500s', a, b)
        c.eq(self.outfiles(), names, msg + ': files')
        c.outcome(exp, names)

    def unit(self):
        from obspy import read
        t = lab.TE + 380
        st = read(os.path.join(DIR, 'data.ms')).select(
            station='PB02', channel='BHZ').slice(t, t + 10)
        return float(np.sum(np.abs(st[0].data)))

    def args(self, cmd):
        words = cmd.split()
        src = 'prof' if words[0] == 'plot-profile' else 'in'
        return words + CMDARGS.get(words[0], [src, 'out'])

    def merged(self, case):
        """File, command line and merged options"""
        conf, cli, opt = dict(DEFAULT), [], dict(DEFAULT)
        for o, s in case['src'].items():
            if s in ('file', 'both'):
                conf[o] = opt[o] = VALUES[o][0]
            if s in ('cli', 'both'):
                v = opt[o] = VALUES[o][1]
                cli += ['--' + o.replace('_', '-'),
                        v if isinstance(v, str) else json.dumps(v)]
        return conf, cli, opt

    def run_opt(self, case, c):
        cmd = case['cmd']
        self.prepare(c)
        conf, cli, opt = self.merged(case)
        with open('conf.json', 'w') as f:
            f.write(json.dumps(conf, indent=1).replace(
                '\n', ' # comment "\n'))
        c.trace()
        before = lab.tree('.')
        msg = 'rf %s with %r' % (cmd, case['src'])
        code, out, err, log = self.record(c, cli + self.args(cmd))
        c.check(code in (0, None), msg + ': exit code %r', code)
        want, names = self.expect(cmd, opt)
        self.match(c, msg, log, want, names, self.unit())
        c.eq(sorted(set(lab.tree('.')) - set(before)), names,
             msg + ': files')

    def run_noconf(self, case, c):
        """Everything on the command line"""
        cmd = case['cmd']
        self.prepare(c)
        cli = []
        for o, v in DEFAULT.items():
            cli += ['--' + o, v if isinstance(v, str) else json.dumps(v)]
        c.trace()
        for conf in ('None', 'none', 'null', ''):
            msg = 'rf -c %r %s' % (conf, cmd)
            code, out, err, log = self.record(
                c, ['-c', conf] + cli + self.args(cmd))
            c.check(code in (0, None), msg + ': exit code %r', code)
            want, names = self.expect(cmd, dict(DEFAULT))
            self.match(c, msg, log, want, names, self.unit())

    def run_pair(self, case, c):
        """File and format of events and inventory"""
        cmd = case['cmd']
        self.prepare(c)
        conf = dict(DEFAULT, events=[DEFAULT['events'], 'QUAKEML'],
                    inventory=[DEFAULT['inventory'], 'STATIONXML'])
        with open('other.json', 'w') as f:
            json.dump(conf, f)
        c.trace()
        msg = 'rf -c other.json ' + cmd
        code, out, err, log = self.record(
            c, ['--conf', 'other.json'] + self.args(cmd))
        c.check(code in (0, None), msg + ': exit code %r', code)
        want, names = self.expect(cmd, dict(DEFAULT))
        self.match(c, msg, log, want, names, self.unit())

    def run_api(self, case, c):
        """run_commands with objects instead of files"""
        from obspy import read, read_events, read_inventory
        from rf.batch import run_commands
        cmd = case['cmd']
        self.prepare(c)
        words = cmd.split()
        st = read('data.ms')
        cat, inv = read_events('ev0.xml'), read_inventory('st0.xml')

        def source(network, station, location, channel, starttime, endtime):
            return st.select(network, station, location, channel).slice(
                starttime, endtime)
        c.trace()
        for events in (cat, list(cat), [cat[0]]):
            kw = dict(events=events, inventory=inv, path_out='out',
                      boxes=dict(DEFAULT['boxes']))
            if words[0] == 'data':
                kw['get_waveforms'] = source
            else:
                kw['path_in'] = 'prof' if cmd == 'plot-profile' else 'in'
            if words[0] == 'convert':
                kw['newformat'] = 'H5'
            msg = 'run_commands(%r, events=<%s>)' % (
                cmd, type(events).__name__)
            code, out, err, log = self.record(
                c, None, lambda: run_commands(words[0], words[1:], **kw))
            c.check(code == 0, msg + ': %r', code)
            opt = dict(DEFAULT)
            if len(events) == 1:
                opt['events'] = 'ev1.xml'
            want, names = self.expect(cmd, opt)
            if len(events) == 1:
                names = self.outfiles()
            self.match(c, msg, log, want, names, self.unit())

    # refused

    def run_refuse(self, case, c):
        cmd, what = case['cmd'], case['what']
        self.prepare(c)
        conf, cli, words = dict(DEFAULT), [], self.args(cmd)
        note = False      # ends with message instead of exit code
        if what == 'nofile':
            note = True
        elif what == 'badfile':
            note = True
        elif what == 'unknown':
            conf['foo'] = 1
        elif what == 'unknown-dict':
            conf['winsrc'] = {}
        elif what == 'unknown-cli':
            cli = ['--foo', '1']
        elif what == 'badjson':
            cli = ['--rf', '{"a": ']
        elif what == 'extra':
            if cmd.split()[0] in ('data', 'calc'):
                words = words[:1] + ['foo'] + words[1:]
            else:
                words = words + ['foo']
        elif what == 'missing':
            # without sub commands, which could be taken for the path
            words = words[:1] + words[len(cmd.split()):-1]
        elif what == 'data':
            if not cmd.startswith('data'):
                return
            note = True
            conf['data'] = 'nothere*.mseed'
        if what == 'badfile':
            with open('conf.json', 'w') as f:
                f.write(json.dumps(conf)[:-1])
        elif what != 'nofile':
            with open('conf.json', 'w') as f:
                json.dump(conf, f)
        before = lab.tree('.')
        code, out, err, log = self.record(c, cli + words)
        msg = 'rf %s with %s' % (cmd, what)
        if note:
            c.check(code in (0, None), msg + ': %r', code)
            c.check(out.strip(), msg + ': no message')
        else:
            c.check(code not in (0, None), msg + ': not refused')
        c.eq([x[0] for x in log], [], msg + ': calls')
        c.eq(lab.tree('.'), before, msg + ': files')
        c.outcome(what, repr(code)[:20])

    def run_list(self, case, c):
        """Lists of sub commands"""
        words = case['words']
        cmd = case['cmd']
        self.prepare(c)
        with open('conf.json', 'w') as f:
            json.dump(DEFAULT, f)
        before = lab.tree('.')
        c.trace()
        args = [cmd] + list(words) + ['in', 'out'][cmd == 'data':]
        code, out, err, log = self.record(c, args)
        msg = 'rf ' + ' '.join(args)
        ok = (set(words) <= {'calc', 'moveout'} and
              len(set(words)) == len(words)) if cmd == 'data' else \
            words in ((), ('moveout',))
        if ok:
            c.check(code in (0, None), msg + ': exit code %r', code)
            want, names = self.expect(' '.join((cmd,) + words),
                                      dict(DEFAULT))
            self.match(c, msg, log, want, names, self.unit())
        else:
            c.check(code not in (0, None), msg + ': not refused')
            c.eq([x[0] for x in log], [], msg + ': calls')
            c.eq(lab.tree('.'), before, msg + ': files')

    def run_unreadable(self, case, c):
        """Events or stations which can not be read"""
        cmd, what = case['cmd'], case['what']
        self.prepare(c)
        if what == 'events' and cmd in ('stack', 'plot'):
            fatal = False
        elif cmd == 'plot-profile':
            return    # neither of them is needed
        else:
            fatal = True
        conf, cli = dict(DEFAULT), []
        bad = case['how']
        if bad == 'cfg':
            bad = 'data.ms'
        if bad in ('absent', 'format'):
            if case['src'] != 'file':
                return
            if bad == 'absent':
                conf.pop(what)
            else:
                conf[what] = [conf[what], 'JUNK']
        else:
            if case['src'] in ('file', 'both'):
                conf[what] = bad
            if case['src'] in ('cli', 'both'):
                cli = ['--' + what, bad]
        with open('conf.json', 'w') as f:
            json.dump(conf, f)
        before = lab.tree('.')
        code, out, err, log = self.record(c, cli + self.args(cmd))
        msg = 'rf %s, %s %s' % (cmd, what, case['how'])
        c.check(code in (0, None), msg + ': %r', code)
        if fatal:
            c.check(out.strip(), msg + ': no message')
            c.eq([x[0] for x in log], [], msg + ': calls')
            c.eq(lab.tree('.'), before, msg + ': files')
        else:
            want, names = self.expect(cmd, dict(DEFAULT))
            self.match(c, msg, log, want, names, self.unit())

    # create and print

    def run_create(self, case, c):
        import rf
        os.chdir(c.tmp)
        conf = case['conf']
        os.mkdir('sub')
        args = (['-c', conf] if conf else []) + ['create'] + (
            [case['tut']] if case['tut'] else [])
        c.op()
        code, out, err = lab.cli(args)
        msg = 'rf ' + ' '.join(args)
        c.check(code in (0, None), msg + ': %r', code)
        conf = conf or 'conf.json'
        want = {conf: 'conf.json'}
        if case['tut']:
            for n in ('example_events.xml', 'example_inventory.xml',
                      'example_data.mseed'):
                want[os.path.join(os.path.dirname(conf), n)] = n
        c.eq(lab.tree('.'), sorted(want), msg + ': files')
        src = os.path.join(os.path.dirname(rf.__file__), 'example')
        for name, n in want.items():
            c.check(filecmp.cmp(name, os.path.join(src, n), False),
                    msg + ': content of %s', name)
        from rf.batch import ConfigJSONDecoder
        with open(conf) as f, open(os.path.join(src, 'conf.json')) as g:
            c.eq(json.load(f, cls=ConfigJSONDecoder),
                 json.loads(strip(g.read())), msg + ': configuration')
        if case['tut']:
            os.chdir(os.path.dirname(conf) or '.')
            code, out, err = lab.cli(['-c', os.path.basename(conf), 'print',
                                      'events'])
            c.check(code in (0, None) and 'Event' in out,
                    msg + ': example events')

    def printed(self, obj):
        from obspy import read_events, read_inventory
        from rf import read_rf, RFStream
        if obj[0] == 'events':
            cat = read_events('ev0.xml')
            return [str(e.origins[0].time) for e in cat], 'Event'
        if obj[0] == 'stations':
            inv = read_inventory('st0.xml')
            return sorted(set(s[:-4] for s in
                              inv.get_contents()['channels'])), None
        st = RFStream()
        for o in obj:
            st += read_rf(o)
        return [' '.join(str(tr).split()) for tr in st], None

    def run_print(self, case, c):
        self.prepare(c)
        obj = list(case['obj'])
        with open('conf.json', 'w') as f:
            json.dump(DEFAULT, f)
        if obj[0] not in ('events', 'stations'):
            if obj[-1] in ('events', 'stations'):
                return
            os.remove('conf.json')     # not needed
        before = lab.tree('.')
        c.op()
        c.trace()
        code, out, err = lab.cli(['print'] + obj)
        msg = 'rf print ' + ' '.join(obj)
        c.check(code in (0, None), msg + ': %r', code)
        want, _ = self.printed(obj)
        if obj[0] == 'stations':
            want = ['CX.' + s[0] for s in lab.SITES]
        out = ' '.join(out.split())
        for w in want:
            c.check(out.count(w) >= want.count(w), msg + ': %s is missing',
                    w)
        if obj[0] not in ('events', 'stations'):
            c.check('%d Trace(s)' % len(want) in out, msg + ': number')
        c.eq(lab.tree('.'), before, msg + ': files')

    def run_printnone(self, case, c):
        self.prepare(c)
        obj = case['obj']
        c.op()
        code, out, err = lab.cli([
            '-c', case['conf'], '--events', 'ev0.xml', '--inventory',
            'st0.xml', 'print', obj])
        msg = 'rf -c %r print %s' % (case['conf'], obj)
        c.check(code in (0, None), msg + ': %r', code)
        want, _ = self.printed([obj])
        if obj == 'stations':
            want = ['CX.' + s[0] for s in lab.SITES]
        out = ' '.join(out.split())
        for w in want:
            c.check(w in out, msg + ': %s is missing', w)


CHECK = C()
