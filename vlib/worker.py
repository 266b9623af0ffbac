"""Runs a slice of one property's cases in one build mode; writes JSON."""
import argparse
import gc
import importlib
import io
import json
import math
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

from . import meta
from . import rec as recmod

STEP_LIMIT = 20_000_000
CPU_GUARD = 25.0
QUICK_TIME = 150


def _alarm(signum, frame):
    raise recmod.CaseTimeout()


def run_steps(fn, limit):
    """Re-run fn under a logical step counter; True when it finished within it."""
    count = [0]

    def tracer(frame, event, arg):
        count[0] += 1
        if count[0] > limit:
            sys.settrace(None)
            raise recmod.StepLimit()
        return tracer

    sys.settrace(tracer)
    try:
        fn()
        return True
    except recmod.StepLimit:
        return False
    except BaseException:
        return True
    finally:
        sys.settrace(None)


class Out(io.StringIO):
    """Swallows what the library prints, keeping a bounded tail."""

    def write(self, s):
        if self.tell() > 200000:
            self.seek(0)
            self.truncate()
        return io.StringIO.write(self, s)


def cover(folder):
    """Records which lines of the repository run (a tool for development, see tools/cover.py)"""
    import atexit
    lines = {}
    mon = sys.monitoring

    def line(code, n):
        if code.co_filename.startswith(recmod.REPO):
            lines.setdefault(code.co_filename[len(recmod.REPO) + 1:], set()).add(n)
        return mon.DISABLE

    def dump():
        with open(os.path.join(folder, '%d.json' % os.getpid()), 'w') as fh:
            json.dump({f: sorted(n) for f, n in lines.items()}, fh)

    mon.use_tool_id(mon.COVERAGE_ID, 'cover')
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    atexit.register(dump)


def main():
    if os.environ.get('VERIF_COV'):
        cover(os.environ['VERIF_COV'])
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--mode', required=True)
    ap.add_argument('--seed', type=int, required=True)
    ap.add_argument('--tier', required=True)
    ap.add_argument('--shard', type=int, required=True)
    ap.add_argument('--nshards', type=int, required=True)
    ap.add_argument('--out', required=True)
    ap.add_argument('--only', default=None, help='kind:index')
    args = ap.parse_args()

    t0 = time.time()
    asan = 'asan' in args.mode
    if not asan:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.path.insert(0, recmod.REPO)
    warnings.simplefilter('ignore')
    accel = args.mode != 'accel0'
    try:
        import vrml_accelerate  # noqa
        have = True
    except ImportError:
        have = False
    if have != accel:
        print('mode %s but vrml_accelerate importable=%s' % (args.mode, have), file=sys.stderr)
        sys.exit(2)
    import vrml
    assert vrml.__file__.startswith(recmod.REPO + '/'), vrml.__file__
    if accel:
        from vrml_accelerate import fieldaccel2, frustcullaccel, tmatrixaccel
        for m in (fieldaccel2, frustcullaccel, tmatrixaccel):
            assert '/.build/' in m.__file__, m.__file__

    real_stdout, real_stderr = sys.stdout, sys.stderr
    module = importlib.import_module('vlib.props.' + args.prop.lower())
    record = recmod.Recorder()

    class Ctx:
        pass

    ctx = Ctx()
    ctx.mode, ctx.tier, ctx.seed, ctx.accel = args.mode, args.tier, args.seed, accel
    if hasattr(module, 'setup'):
        module.setup(ctx)

    cases = []
    if args.only:
        kind, index = args.only.rsplit(':', 1)
        cases.append((kind, int(index)))
    else:
        n = 0
        plan = module.plan(args.tier, args.mode)
        # quick checks add rounds to the plan while their time lasts
        rounds = float(os.environ.get('VERIF_ROUNDS') or meta.ROUNDS[args.prop]) if args.tier == 'quick' else 1
        for r in range(math.ceil(rounds)):
            for kind, count in plan:
                if r and kind in getattr(module, 'ONCE', ()):
                    continue
                for index in range(r * count, int(min(rounds, r + 1) * count)):
                    if n % args.nshards == args.shard:
                        cases.append((kind, index))
                    n += 1
            if not r:
                first_round = len(cases)
    signal.signal(signal.SIGVTALRM, _alarm)
    for number, (kind, index) in enumerate(cases):
        if not args.only and number >= first_round and args.tier == 'quick' and time.time() - t0 > QUICK_TIME:
            record.counts['cases_left_for_want_of_time'] = len(cases) - number
            break
        record.case = {'kind': kind, 'index': index, 'mode': args.mode, 'seed': args.seed}
        if not getattr(module, 'AUTOMATIC_GC', False):
            # a receiver collected in the midst of a send makes PyDispatcher skip the one after it
            gc.disable()

        def one(rec_):
            rng = random.Random('%s|%s|%s|%s|%s' % (args.prop, args.seed, args.mode, kind, index))
            module.run_case(kind, index, rng, rec_, ctx)

        record.evaluations += 1
        started = time.process_time()
        sys.stdout, sys.stderr = Out(), Out()
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_GUARD)
        try:
            try:
                one(record)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except recmod.Violation as v:
            record.fail(v.mechanism, v.message, v.data)
        except recmod.CaseTimeout:
            case = record.case
            scratch = recmod.Recorder()
            scratch.case = case
            if run_steps(lambda: one(scratch), STEP_LIMIT):
                record.inconclusive.append('case %r used %.0f s of CPU but ended within %d steps' % (case, CPU_GUARD, STEP_LIMIT))
            else:
                record.fail('nontermination', 'case %r did not end within %d interpreter steps' % (case, STEP_LIMIT))
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as exc:
            name, site = recmod.exception_site(exc)
            tb = ''.join(traceback.format_tb(exc.__traceback__))
            text = repr(getattr(exc, 'position', '')) if isinstance(exc, SyntaxError) else str(exc)[:500]
            record.fail('exception:%s@%s' % (name, site), '%s: %s' % (name, text), tb[-6000:])
            del exc
        finally:
            tail = sys.stderr.getvalue()[-2000:]
            sys.stdout, sys.stderr = real_stdout, real_stderr
        used = time.process_time() - started
        if used > float(os.environ.get('VERIF_SLOW') or 1e9):
            with open('/tmp/slow.log', 'a') as log:
                log.write('slow: %.1f s %s %s\n' % (used, args.prop, record.case))
        if args.only:
            print('--- captured stderr\n' + tail)
        if record.evaluations % getattr(module, 'CLEANUP_EVERY', 200) == 0:
            gc.collect()
    if hasattr(module, 'finish'):
        module.finish(record, ctx)
    with open(args.out + '.tmp', 'w') as fh:
        json.dump({
            'evaluations': record.evaluations, 'keys': sorted(record.keys),
            'counts': record.counts, 'samples': record.samples,
            'fails': record.fails, 'fail_total': record.fail_total,
            'inconclusive': record.inconclusive, 'wall': time.time() - t0,
        }, fh)
    os.rename(args.out + '.tmp', args.out)


if __name__ == '__main__':
    main()
