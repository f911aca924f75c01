"""Collects the obligations of a check."""
import os
from .interp import Undecided
from .drive import Gone


class Report:
    def __init__(self, prop, thorough=False):
        self.prop, self.thorough = prop, thorough
        self.obs = []           # (rule, construct, status, message, where)
        self.notes = []
        self.stats = {}
        self._seen = set()

    def _add(self, rule, construct, status, msg, where):
        k = (rule, construct, status, msg)
        if k in self._seen:
            return
        self._seen.add(k)
        self.obs.append((rule, construct, status, msg, where or construct))

    def ok(self, rule, construct, msg='', where=None):
        self._add(rule, construct, 'ok', msg, where)

    def bad(self, rule, construct, msg='', where=None):
        self._add(rule, construct, 'violation', msg, where)

    def unk(self, rule, construct, msg='', where=None):
        self._add(rule, construct, 'undecided', msg, where)

    def expect(self, cond, rule, construct, msg='', where=None):
        """cond: True / False / None (undecided)"""
        (self.ok if cond is True else self.bad if cond is False else self.unk)(rule, construct, msg if cond is not True else '', where)
        return cond

    def guard(self, rule, construct, f):
        """run f(); an Undecided analysis becomes an undecided obligation"""
        try:
            return f()
        except Undecided as e:
            self.unk(rule, construct, 'analysis: ' + str(e)[:300])
        except Gone:
            raise
        except Exception as e:      # the abstract interpreter met something it does not model
            if os.environ.get('VERIF_DEBUG'):
                raise
            self.unk(rule, construct, 'analysis: internal %s: %s' % (type(e).__name__, str(e)[:200]))
        return None
