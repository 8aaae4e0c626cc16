"""What the rules share: running entries, collecting findings and counts."""
import ast
import os
import time
import traceback
from .model import Program, Func, ModelError
from .engine import Interp, Limit, Observer


class Check:
    def __init__(self, pid, program, tier='quick'):
        self.pid, self.p, self.tier = pid, program, tier
        self.findings = []       # dicts: file function line message key rule entry
        self.functions = set()   # analysed functions
        self.entries = []        # (rule, entry, outcomes)
        self.obligations = {}    # rule -> number of instances decided
        self.undecided = []      # entries the analysis gave up on
        self.paths = 0
        self.events = 0
        self.statements = set()
        self.notes = []
        self._seen = set()

    def need(self, cond, what):
        if not cond:
            raise ModelError(what)

    def oblige(self, rule, n=1):
        self.obligations[rule] = self.obligations.get(rule, 0) + n

    def finding(self, rule, func, line, message, file=None, key=None, entry=None, detail=None):
        if isinstance(func, Func):
            file, line, func = func.file, line or func.node.lineno, func.qual
        k = (rule, func, key or message)
        if k in self._seen:
            return
        self._seen.add(k)
        self.findings.append(dict(rule=rule, file=file, function=func, line=line,
                                  message=message, key=key or message, entry=entry,
                                  detail=detail))

    def absorb(self, rule, interp, obs, entry, outs):
        self.functions |= interp.stats['functions']
        self.statements |= interp.stats['statements']
        self.paths += interp.stats['paths']
        self.events += interp.stats['events']
        self.entries.append((rule, entry, outs))
        for r in obs.reports.values():
            self.finding(r.get('rule') or rule, r['function'], r['line'], r['message'],
                         file=r['file'], key=r['key'], entry=r['entry'])

    def run(self, rule, obs, qual, then=None, seconds=150, **kw):
        """Analyse one entry under an observer; outcomes, or None if given up."""
        i = Interp(self.p, obs)
        i.deadline = time.time() + seconds
        outs = None
        try:
            outs = i.run(qual, **kw)
            if then is not None:
                then(i, outs)
        except Limit as e:
            self.undecided.append('%s: %s: %s' % (rule, qual, e))
        except RecursionError:
            self.undecided.append('%s: %s: too deep' % (rule, qual))
        except ModelError:
            raise
        except Exception as e:      # code that the engine or the rule is not prepared for
            traceback.print_exc()
            self.undecided.append('%s: %s: internal error %r' % (rule, qual, e))
        self.absorb(rule, i, obs, qual, len(outs) if outs is not None else None)
        return outs

    def methods(self, cls, inherited=False):
        """(name, Func) of a class"""
        c = self.p.need_class(cls)
        return [(n, f) for n, f in sorted(c.body.items()) if isinstance(f, Func)]


    def roots(self, cls):
        """(name, Func) of a class, but for the private methods that others of its module call:
        these are followed from there, where what they are given is known"""
        out = []
        for name, f in self.methods(cls):
            if name.startswith('_') and not name.endswith('__'):
                used = returned = 0
                for n in ast.walk(f.module.tree):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                            and n.func.attr == name:
                        used += 1
                    elif isinstance(n, ast.Return) and isinstance(n.value, ast.Call) and \
                            isinstance(n.value.func, ast.Attribute) and n.value.func.attr == name:
                        returned += 1
                if used and not (f.is_gen and returned):
                    continue
            out.append((name, f))
        return out


# functions whose inside no rule but their own looks into
UTIL_CLASSES = ('durus.utils.IntArray.', 'durus.utils.WordArray.',
                'durus.utils.ByteArray.', 'durus.utils.IntSet.',
                'durus.utils.Byte', 'durus.logger.', 'durus.utils.TimeMeter')


class Obs(Observer):
    """An observer with the common opaque functions."""
    opaque_prefixes = UTIL_CLASSES
    opaque_names = ()

    def opaque(self, qual):
        return qual in self.opaque_names or qual.startswith(tuple(self.opaque_prefixes))
