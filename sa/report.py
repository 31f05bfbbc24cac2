"""Obligations: each is proven, violated or undecided; only violated ones raise an alarm."""
import os
from .loader import AnalysisError


class Ob:
    __slots__ = ("key", "status", "what", "loc", "detail")

    def __init__(self, key, status, what, loc, detail=""):
        self.key, self.status, self.what, self.loc, self.detail = key, status, what, loc, detail

    def where(self):
        if not self.loc:
            return ""
        return f"{os.path.relpath(self.loc[0], '/repo') if str(self.loc[0]).startswith('/') else self.loc[0]}:{self.loc[1]}"

    def line(self):
        return f"[{self.status}] {self.key}: {self.what}" + (f" ({self.where()})" if self.loc else "") + (
            f" -- {self.detail}" if self.detail else "")


class Report:
    def __init__(self, pid, C):
        self.pid, self.C = pid, C
        self.obs = []
        self.notes = []

    def ok(self, key, what, loc=None, detail=""):
        self.obs.append(Ob(key, "proven", what, loc, detail))

    def bad(self, key, what, loc=None, detail=""):
        self.obs.append(Ob(key, "violated", what, loc, detail))

    def und(self, key, what, loc=None, detail=""):
        self.obs.append(Ob(key, "undecided", what, loc, detail))

    def put(self, verdict, key, what, loc=None, detail=""):
        """verdict: True / False / None."""
        (self.ok if verdict is True else self.bad if verdict is False else self.und)(key, what, loc, detail)

    def note(self, s):
        self.notes.append(s)

    def section(self, key, fn, *args):
        """Run one group of obligations; a group the analysis cannot follow is undecided."""
        try:
            fn(self.C, self, *args)
        except AnalysisError:
            raise
        except RecursionError:
            self.und(key, "analysis of this part did not complete", None, "recursion limit")
        except Exception as ex:          # noqa: BLE001 - recorded, never silent
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            self.und(key, "analysis of this part did not complete", None,
                     f"{type(ex).__name__}: {ex} at {os.path.basename(tb.filename)}:{tb.lineno}")
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
