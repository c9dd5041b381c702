"""Compiles and runs programs of the dice language with the real code of /repo and records what happened.

usage: realprog.py IN.ndjson OUT.ndjson M [jobs]      (same driver as realapi.py)
"""
import copy
import hashlib
import signal
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import project  # noqa: E402
import realapi  # noqa: E402


def digest(s):
    return hashlib.sha256(s.encode('utf-8', 'surrogatepass')).hexdigest()


class Prog:
    def __init__(self, M):
        self.dc = sys.modules['dice_calc']
        self.pe = sys.modules['dice_calc.parser.parse_and_exec']
        self.proj = project.Projector(M)

    def flags(self, ev):
        f = {}
        if ev['dyn'] or ev.get('say'):
            f['COMPILER_FLAG_NON_LOCAL_SCOPE'] = bool(ev['dyn'])
        if ev['opint'] or ev.get('say'):
            f['COMPILER_FLAG_OPERATOR_ON_INT'] = bool(ev['opint'])
        if not ev['strict'] or ev.get('say'):
            f['COMPILER_FLAG_FUNC_EXIST_CHECK'] = bool(ev['strict'])
        if ev.get('conf'):
            f['COMPILER_FLAG_FUNC_LIB_CONFLICT'] = True
        return f if f or ev.get('say') else None

    def limited(self, f):
        """(value, None) or (None, what went wrong)"""
        signal.setitimer(signal.ITIMER_REAL, realapi.EVENT_TIMEOUT)
        try:
            return f(), None
        except realapi.Timeout:
            return None, 'hang'
        except (Exception, SystemExit) as ex:
            return None, type(ex).__name__
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def out(self, outs, a, kw):
        # output(value) or output(value, named=text)
        if len(a) != 1 or set(kw) - {'named'}:
            outs.append({'v': {'t': 'other', 'x': 'output arguments'}})
            return
        o = {'v': self.proj(a[0])}
        if 'named' in kw:
            if not isinstance(kw['named'], str):
                o['v'] = {'t': 'other', 'x': 'name'}
            else:
                o['nm'] = project.codes(kw['named'])
        outs.append(o)

    def event(self, ev):
        k = ev['k']
        if k == 'reset':
            self.dc.settings_reset()
        elif k == 'run':
            ev['t'] = project.codes(ev['s'])
            flags = self.flags(ev)
            code, bad = self.limited(lambda: self.pe.compile_anydice(ev['s'], flags) if flags is not None else self.pe.compile_anydice(ev['s']))
            ev['o'] = {'acc': 'no' if bad else 'yes', 'outs': [], 'end': bad or 'not run'}
            if bad == 'hang':
                ev['o']['acc'] = 'hang'
            if bad or ev['mode'] == 'compile':
                return
            if not isinstance(code, str):
                ev['o']['acc'] = 'not a text'
                return
            outs = []
            run = self.pe.safe_exec if ev['mode'] == 'safe' else self.pe.unsafe_exec
            if ev.get('ret'):       # outputs as the run returns them (lost if it fails)
                res, bad = self.limited(lambda: run(code))
                if not bad:
                    for a, kw in res:
                        self.out(outs, a, kw)
                else:
                    ev['o']['lost'] = 1
            else:
                res, bad = self.limited(lambda: run(code, {'output': lambda *a, **kw: self.out(outs, a, kw)}))
            ev['o'].update(outs=outs, end=bad or 'ok')
        elif k == 'pure':
            flags = self.flags(ev)
            keep = copy.deepcopy(flags)
            a, bad = self.limited(lambda: self.pe.compile_anydice(ev['s'], flags))
            ev['key'] = digest(ev['s'] + repr(keep))
            ev['got'] = 'refused' if bad else digest(str(a))
            ev['given'], ev['after'] = repr(keep), repr(flags)
        elif k == 'option':
            _, bad = self.limited(lambda: self.pe.compile_anydice(ev['s'], ev['flags']))
            ev['refused'] = bad is not None
            ev['flags'] = repr(ev['flags'])
        else:
            raise AssertionError('unknown event ' + k)


def run_history(hist, M):
    s = Prog(M)
    for ev in hist['ev']:
        s.event(ev)
    return hist


realapi.RUNNER = run_history
if __name__ == '__main__':
    sys.exit(realapi.main(sys.argv))
