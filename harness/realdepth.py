"""Runs call scripts against the real code and records what happened.

A history is {id, scripts: [[op, ...], ...]}; the recording is {id, ev: [...]} with the events of spec/DepthTrace.tla.
Functions are the real decorators around a body that carries out the next operations of the script."""
import contextlib
import io
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import realapi  # noqa: E402


class Planned(Exception):
    pass


class Runner:
    def __init__(self):
        self.dc = sys.modules['dice_calc']
        import dice_calc.decorators as dec
        import dice_calc.settings as settings
        import dice_calc.typings as ty
        self.set, self.reset = settings.settings_set, settings.settings_reset
        self.blank = sys.modules['dice_calc.blackrv'].BlankRV
        self.log, self.buf = [], io.StringIO()
        T_N = ty.T_N

        def body(a: T_N):
            return self.body()

        def body_k(*, a: T_N):
            return self.body()

        def plain(a):
            return self.body()
        self.fns = {(1, 'p'): dec.anydice_casting()(body), (1, 'k'): dec.anydice_casting()(body_k), (1, 'd'): dec.max_func_depth()(plain),
                    (1, 'c'): dec.anydice_casting()(plain), (0, 'p'): dec.anydice_type_casting()(body)}

    def msgs(self):
        return self.buf.getvalue().count('maximum function depth')

    def body(self):
        call = self.open[-1]
        if not call['ex']:
            call['ex'] = 1
            call['msg'] = self.msgs() - call.pop('m0')
        self.log.append({'k': 'beg'})
        some = self.steps(True)
        self.log.append({'k': 'end', 'some': some})
        return 3 if some else None

    def call(self, op, infn):
        lim, n = op['lim'], op['n']
        how = op.get('how', 'p')
        f = self.fns.get((lim, how)) or self.fns[lim, 'p']
        if n == 1 or how in ('d', 'c'):
            n, arg = 1, 1
        else:
            arg = self.dc.RV(range(1, n + 1), [1] * n)
        ev = {'k': 'call', 'lim': lim, 'n': n, 'ex': 0, 'msg': 0, 'm0': self.msgs(), 'res': '-'}
        self.log.append(ev)
        self.open.append(ev)
        try:
            v = f(a=arg) if how == 'k' else f(arg)
        except Planned:
            self.open.pop()
            if 'm0' in ev:
                ev['msg'] = self.msgs() - ev.pop('m0')
            nxt = self.ops[self.pos] if self.pos < len(self.ops) else {'k': 'catch'}
            if nxt['k'] in ('prop', 'catch'):
                self.pos += 1
            if infn and nxt['k'] == 'prop':
                self.log.append({'k': 'prop'})
                raise
            self.log.append({'k': 'catch'})
            return
        self.open.pop()
        res = 'b' if isinstance(v, self.blank) else 'v'
        if 'm0' in ev:       # no body ran
            ev['msg'] = self.msgs() - ev.pop('m0')
            ev['res'] = res
        if ev['ex']:
            self.log.append({'k': 'ret', 'res': res})

    def steps(self, infn):
        while self.pos < len(self.ops):
            op = self.ops[self.pos]
            self.pos += 1
            k = op['k']
            if k == 'call':
                self.call(op, infn)
            elif k == 'end':
                if infn:
                    return op['some']
            elif k == 'raise':
                if infn:
                    self.log.append({'k': 'raise'})
                    raise Planned()
            elif k == 'set':
                self.set('maximum function depth', op['m'])
                self.log.append({'k': 'set', 'm': op['m']})
            elif k == 'bad':
                try:
                    self.set('maximum function depth', op['m'])
                    self.log.append({'k': 'accepted'})
                except AssertionError:
                    pass
            elif k == 'reset':
                self.reset()
                self.log.append({'k': 'reset'})
            # prop and catch with nothing to catch: the call did not raise after all
        return 1

    def script(self, ops):
        self.reset()
        self.log.append({'k': 'new'})
        # after the script, all calls end; then the count must be what it was at first
        self.ops, self.pos, self.open = ops, 0, []
        self.buf.seek(0)
        self.buf.truncate()
        with contextlib.redirect_stdout(self.buf):
            try:
                self.steps(False)
                for m in (1, 2):
                    self.ops, self.pos, self.open = [{'k': 'set', 'm': m}] + [{'k': 'call', 'lim': 1, 'n': 1}] * (m + 1), 0, []
                    self.steps(False)
            except Exception as ex:
                self.log.append({'k': 'error', 'why': repr(ex)[:200]})


def run_history(hist, M):
    r = Runner()
    for ops in hist['scripts']:
        r.script(ops)
    for e in r.log:
        e.pop('m0', None)
    return {'id': hist['id'], 'ev': r.log}


realapi.RUNNER = run_history
if __name__ == '__main__':
    sys.exit(realapi.main(sys.argv))
