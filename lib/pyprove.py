"""python3-vt pyprove.py UNIT: proves one unit of pyunits.py; JSON on stdout.
A counterexample is run again with its concrete values on the real code."""

import json
import sys
import time
import traceback

import z3

import sym
import pyunits


def guarded(unit):
    def run(E):
        try:
            unit(E)
        except (sym.Cut, sym.Unmodelled):
            raise
        except sym.Failed:
            E.pending = []
            raise sym.Cut()
        except RecursionError:
            raise sym.Unmodelled('recursion')
        except Exception as e:
            name = 'no exception: %s: %s' % (type(e).__name__, e)
            E.trace = traceback.format_exc()
            try:
                E.oblige(False, name)
            except sym.Failed:
                raise sym.Cut()
    return run


def main():
    name = sys.argv[1]
    unit, funcs = pyunits.ALL[name]
    t0 = time.time()
    out = {'status': 'undecided', 'reason': '', 'failed': [], 'confirmed': ''}
    try:
        E = sym.explore(guarded(unit))
        out.update(obligations=E.obligations, discharged=E.discharged, paths=E.paths,
                   covers=sorted(E.covers), names=sorted(E.names), queries=E.queries)
        if E.failed:
            out['status'] = 'failed'
            out['trace'] = getattr(E, 'trace', '')
            for what, values in E.failed[:5]:
                out['failed'].append(what)
                try:
                    C = sym.explore(guarded(unit), inputs=values)
                    if C.failed and not out['confirmed']:
                        out['confirmed'] = 'unit %s: %s\ninputs: %s\n%s' % (
                            name, C.failed[0][0], json.dumps(values, indent=1),
                            getattr(C, 'trace', ''))
                except Exception as e:
                    out['trace'] += '\nnot confirmed: %r' % e
        elif not E.covers:
            out['reason'] = 'nothing reached'
        else:
            out['status'] = 'proved'
    except sym.Unmodelled as e:
        out['reason'] = 'not modelled: %s' % e
    except Exception:
        out['reason'] = traceback.format_exc()
    out['wall_s'] = time.time() - t0
    print(json.dumps(out))


main()
