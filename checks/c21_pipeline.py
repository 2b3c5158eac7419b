"""C21: batch commands give the results of the library"""
import itertools
import json
import os
import re
import shutil
import warnings

import numpy as np

from mc import batchlab as lab
from mc import faults
from mc.engine import Check
from mc.build import subsets

FORMATS = lab.FORMATS
STAGES = ('data', 'calc', 'moveout')
SPLITS = {'data': [('d',)], 'calc': [('dc',), ('d', 'c')],
          'moveout': [('dcm',), ('d', 'cm'), ('dc', 'm'), ('d', 'c', 'm')]}
NAME = {'d': 'data', 'c': 'calc', 'm': 'moveout'}
VARIANTS = {
    'default': {},
    'S': {'phase': 'S', 'options': {'request_window': lab.WINDOW,
                                  'dist_range': [30, 90]},
          'rf': dict(lab.RF, winsrc=[-5, 5, 2])},
    'water': {'rf': {'deconvolve': 'waterlevel', 'rotate': 'NE->RT',
                     'waterlevel': 0.1, 'winsrc': [-5, 15, 2]}},
    'iter': {'rf': dict(deconvolve='iterative', itmax=5, trim=[-15, 30])},
    'Ppps': {'moveout_phase': 'Ppps'},
    'mo': {'moveout': {'phase': 'Ppss', 'ref': 5.5}},
    'down': {'rf': dict(lab.RF, downsample=1.)},
    'pp': {'options': dict(lab.OPTIONS, pp_depth=80, pp_phase='P')},
    'win': {'options': {'request_window': [-20, 30.3]}},
    'nohead': {'options': {'request_window': [-20, 30.3],
                           'dist_range': [30, 50]}},
}
BANDS = ('BH', 'HH')
QUICK_CRASH = ('data', 'calc', 'convert', 'stack', 'profile')
DIR = None
REF = {}


class C(Check):
    id = 'C21'
    rule = ('chains of the commands data, calc, moveout split into calls in '
            'every way, every format %s for the first call, optional '
            'conversion to every format after every call, then stack, '
            'profile, plot; configurations %s; repetition; interruption at each file access and '
            'repetition; preceding runs for '
            'subsets of events and stations' % (FORMATS, sorted(VARIANTS)))
    bounds = {'quick': 'all chains for the default configuration with '
                       '6 records of 3 sensors at 2 stations, 4 chains for the other '
                       'configurations; interruption of 5 commands at all '
                       'accesses',
              'thorough': 'all chains for all configurations, interruption '
                          'and errors for 7 commands'}
    assumptions = (
                   'SAC and Q store times to milliseconds and values in '
                   'single precision',)
    timeout = 600

    def setup(self):
        faults.install()
        global DIR
        DIR = os.path.abspath('data')
        lab.prepare(DIR)
        for name, v in VARIANTS.items():
            conf = lab.conf(DIR, **v)
            REF[name] = lab.library(conf, DIR, lab.inventory())
        lab.prepare(DIR + '2', BANDS)
        REF['bands'] = lab.library(lab.conf(DIR + '2'), DIR + '2',
                               lab.inventory(bands=BANDS))

    def cases(self, tier):
        deep = tier == 'thorough'
        for target, var in itertools.product(STAGES, VARIANTS):
            for split in SPLITS[target]:
                for fmt in FORMATS:
                    for convs in itertools.product((None,) + FORMATS,
                                                   repeat=len(split)):
                        f = fmt
                        ok = True
                        for x in convs:
                            ok = ok and x != f
                            f = x or f
                        if not ok:
                            continue
                        if not deep and var != 'default' and (
                                any(convs) or len(split) == 2):
                            continue
                        yield {'k': 'chain', 'split': split, 'fmt': fmt,
                               'convs': convs, 'var': var,
                               'target': target}
        # names of formats in lower case
        for fmt, conv in itertools.product(FORMATS, (None,) + FORMATS):
            for split in SPLITS[STAGES[-1]][::3]:
                if conv != fmt:
                    yield {'k': 'chain', 'split': split, 'fmt': fmt,
                           'convs': (None,) * (len(split) - 1) + (conv,),
                           'var': 'default', 'target': STAGES[-1],
                           'lower': True}
        for fmt in FORMATS:
            yield {'k': 'datamoveout', 'fmt': fmt}
            yield {'k': 'bands', 'fmt': fmt}
            for cmd in ('data', 'data calc', 'data calc moveout', 'calc',
                        'calc moveout', 'moveout', 'convert', 'stack',
                        'profile', 'plot', 'plot-profile'):
                yield {'k': 'repeat', 'fmt': fmt, 'cmd': cmd}
            parts = 12
            for cmd, fault, part in itertools.product(
                    ('data', 'data calc', 'calc', 'moveout', 'convert',
                     'stack', 'profile'), ('int', 'os'), range(parts)):
                if deep or fault == 'int' and cmd in QUICK_CRASH:
                    yield {'k': 'crash', 'fmt': fmt, 'cmd': cmd, 'parts':
                           parts, 'part': part, 'fault': fault}
            stas = [(0,), (1,), (0, 2), (1, 2), (0, 1, 2)]
            for a, b in itertools.product(subsets((0, 1), 1), stas):
                for c, d in itertools.product(subsets((0, 1), 1), stas):
                    yield {'k': 'union', 'fmt': fmt, 'first': (a, b),
                           'second': (c, d)}

    # helpers

    def conf(self, c, var='default', **kw):
        os.chdir(c.tmp)
        d = lab.conf(DIR, **VARIANTS[var])
        d.update(kw)
        with open('conf.json', 'w') as f:
            json.dump(d, f)

    def cmd(self, c, *args):
        c.op()
        code, out, err = lab.cli(args)
        msg = 'rf ' + ' '.join(args)
        c.check(code in (0, None), msg + ': %r %s', code, err[-200:])
        c.check('Error' not in out and 'cannot' not in out,
                msg + ': output %s', out)
        return msg

    def lossy(self, fmts):
        # interpolation of samples by moveout with onset rounded to ms
        return 1e-9 if set(fmts) <= {'H5'} else 3e-3

    def run(self, case, c):
        getattr(self, 'run_' + case['k'])(case, c)
        c.state(case)

    def run_chain(self, case, c):
        var = case['var']
        self.conf(c, var)
        c.trace()
        fmt, fmts, path = case['fmt'], [], None
        stage = None
        spell = str.lower if case.get('lower') else str
        for n, (call, conv) in enumerate(zip(case['split'], case['convs'])):
            new = 'out%d' % n
            fmts.append(fmt)
            args = ['--format', spell(fmt)] + [NAME[x] for x in call]
            stage = NAME[call[-1]]
            args += ([path] if path else []) + [new]
            msg = self.cmd(c, *args)
            path = new
            lab.judge(c, REF[var][stage], path, fmt, None,
                       self.lossy(fmts), msg, stage)
            if conv:
                new = 'conv%d' % n
                msg = self.cmd(c, '--format', spell(fmt), 'convert', path, new,
                               spell(conv))
                fmt, path = conv, new
                fmts.append(fmt)
                lab.judge(c, REF[var][stage], path, fmt, None,
                           self.lossy(fmts), msg, stage)
        for kind in ('stack', 'profile'):
            ref = REF[var].get('%s %s' % (kind, stage))
            if ref is None:
                continue
            msg = self.cmd(c, '--format', spell(fmt), kind, path, kind)
            lab.judge(c, ref, kind, fmt, kind, self.lossy(fmts + [fmt]),
                       msg, stage)
            if kind == 'profile' and stage == 'moveout' and not any(
                    case['convs']):
                self.cmd(c, '--format', spell(fmt), 'plot-profile', kind, 'figs')
                comps = set(tr.stats.channel[-1] for tr in ref[0])
                c.eq(lab.tree('figs'), sorted('profile_%s.pdf' % x
                                              for x in comps), 'figures')
                self.cmd(c, '--format', spell(fmt), '--plot',
                         '{"info": null}', 'plot', path, 'figs2')
                c.eq(lab.tree('figs2'), sorted(set(
                    tr.id + '.pdf' for s in REF[var][stage] for tr in s)),
                    'figures')

    def run_datamoveout(self, case, c):
        self.conf(c)
        c.trace()
        fmt = case['fmt']
        msg = self.cmd(c, '--format', fmt, 'data', 'moveout', 'out')
        lab.judge(c, REF['default']['datamoveout'], 'out', fmt, None,
                   self.lossy([fmt]), msg, 'moveout')

    def run_bands(self, case, c):
        """Two bands recorded at each station"""
        from rf import read_rf
        os.chdir(c.tmp)
        fmt = case['fmt']
        with open('conf.json', 'w') as f:
            json.dump(lab.conf(DIR + '2', format=fmt), f)
        c.trace()
        ref = REF['bands']
        msg = self.cmd(c, 'data', 'raw')
        if fmt == 'Q':
            ids = [tr.id for s in ref['data'] for tr in s]
            have = [tr.id for f in lab.tree('raw') if f.endswith('QHD')
                    for tr in read_rf(os.path.join('raw', f))]
            if sorted(have) == sorted(i for i in ids if '.HH' in i):
                c.finding('q_bands', msg + ': records of band BH are missing '
                          'in Q files, because the records of band HH have '
                          'the same file names')
                return
        lab.judge(c, ref['data'], 'raw', fmt, None, self.lossy([fmt]), msg)
        msg = self.cmd(c, 'calc', 'raw', 'rf')
        lab.judge(c, ref['calc'], 'rf', fmt, None, self.lossy([fmt]), msg)
        msg = self.cmd(c, 'moveout', 'rf', 'mo')
        lab.judge(c, ref['moveout'], 'mo', fmt, None, self.lossy([fmt]),
                   msg, 'moveout')
        for kind in ('stack', 'profile'):
            msg = self.cmd(c, kind, 'mo', kind)
            lab.judge(c, ref[kind + ' moveout'], kind, fmt, kind,
                       self.lossy([fmt]), msg, 'moveout')
        new = FORMATS[(FORMATS.index(fmt) + 1) % 3]
        if new != 'Q':
            msg = self.cmd(c, 'convert', 'mo', 'conv', new)
            lab.judge(c, ref['moveout'], 'conv', new, None,
                       self.lossy([fmt, new]), msg, 'moveout')

    def read_all(self):
        return {f: self.read_file(f) for f in lab.tree('.')}

    def read_file(self, f):
        from rf import read_rf
        if f.endswith(('.SAC', '.QHD', '.h5')):
            st = read_rf(f)
            return sorted((lab.sig(tr), float(np.sum(tr.data)),
                           len(tr), str(tr.stats.starttime)) for tr in st)
        elif not f.endswith('.pdf'):
            with open(f, 'rb') as fh:
                return fh.read()
        return os.path.getsize(f) > 1000

    def run_repeat(self, case, c):
        fmt, cmd = case['fmt'], case['cmd']
        self.conf(c, format=fmt)
        c.trace()
        pre = {'calc': ('data', 'raw'), 'calc moveout': ('data', 'raw'),
               'moveout': ('data calc', 'raw'),
               'convert': ('data', 'raw'), 'stack': ('data calc', 'raw'),
               'profile': ('data calc', 'raw'),
               'plot': ('data calc', 'raw'),
               'plot-profile': ('data calc moveout', 'raw')}.get(cmd)
        io = []
        if pre:
            self.cmd(c, *(pre[0].split() + [pre[1]]))
            io = ['raw']
        if cmd == 'plot-profile':
            self.cmd(c, 'profile', 'raw', 'prof')
            io = ['prof']
        args = cmd.split() + io + ['out']
        if cmd == 'convert':
            args.append(FORMATS[(FORMATS.index(fmt) + 1) % 3])
        msg = self.cmd(c, *args)
        first = self.read_all()
        for n in range(2):
            self.cmd(c, *args)
            second = self.read_all()
            c.eq(sorted(second), sorted(first), msg + ' again: files')
            for f in first:
                c.check(first[f] == second[f], msg + ' again: file %s', f)

    def run_crash(self, case, c):
        """Command interrupted at each file access and repeated"""
        fmt, cmd = case['fmt'], case['cmd']
        self.conf(c, format=fmt)
        cat = lab.catalog()
        type(cat)(cat[:2]).write('ev.xml', 'QUAKEML')
        lab.inventory(extra=False, sites=(0, 1)).write('st.xml', 'STATIONXML')
        small = ['--events', 'ev.xml', '--inventory', 'st.xml']
        io = []
        if cmd not in ('data', 'data calc'):
            self.cmd(c, *(small + ['data'] + ['calc'] * (
                cmd in ('moveout', 'stack', 'profile')) + ['raw']))
            io = ['raw']
        args = small + cmd.split() + io + ['out']
        if cmd == 'convert':
            args.append(FORMATS[(FORMATS.index(fmt) + 1) % 3])
        pre = self.read_all()
        with faults.inject(c.tmp) as inj:
            msg = self.cmd(c, *args)
        n = inj.count
        want = self.read_all()
        new = set(want) - set(pre)
        c.check(len(new) > 0 and n > 3, msg + ': files %s', new)
        for at in range(case['part'], n, case['parts']):
            for f in new:
                if os.path.exists(f):
                    os.remove(f)
            c.op()
            c.trace()
            with faults.inject(c.tmp, at, case['fault']) as inj:
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        lab.cli(args)
                except faults.Interrupt:
                    pass
            hit = '%s interrupted at access %d (%s)' % (msg, at, inj.hit)
            c.check(inj.hit is not None, 'no fault at %d', at)
            # Q has header and data file, SAC one file per component
            bad = set()
            for f in new - {'out.h5'}:
                if os.path.exists(f):
                    try:
                        if self.read_file(f) != want[f]:
                            raise ValueError
                    except Exception:
                        bad.add(re.sub('[.][A-Z]*$|[.]BH[A-Z0-9]', '', f))
            c.check(len(bad) <= 1, hit + ': damaged files %s', bad)
            self.cmd(c, *args)
            got = self.read_all()
            c.eq(sorted(got), sorted(want), hit + ': files after repetition')
            for f in want:
                c.check(got[f] == want[f], hit + ': file %s after repetition',
                        f)
            c.state(case, at)
        c.outcome(n)

    def run_union(self, case, c):
        """Runs for different events and stations into the same directory"""
        fmt = case['fmt']
        self.conf(c, format=fmt)
        c.trace()
        cat = lab.catalog()
        done = set()
        for evs, stas in (case['first'], case['second']):
            sub = type(cat)([cat[i] for i in evs])
            sub.write('ev.xml', 'QUAKEML')
            lab.inventory(extra=False, sites=stas).write('st.xml', 'STATIONXML')
            msg = self.cmd(c, '--events', 'ev.xml', '--inventory', 'st.xml',
                           'data', 'calc', 'out')
            done |= {(e, s) for e in evs for s in stas}
            want = [s for s in REF['default']['calc'] if any(
                s[0].stats.event_time == lab.EVENTS[e][3] and
                lab.station(s[0]) == 'CX.%s.%s' % lab.SITES[i][:2]
                for e, i in done)]
            lab.judge(c, want, 'out', fmt, None, self.lossy([fmt]), msg)


CHECK = C()
