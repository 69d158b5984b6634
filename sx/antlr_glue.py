"""Makes the (pure Python, unmodified on disk) ANTLR runtime accept symbolic
characters: the lexer simulator forks over the sets of characters that lead to
the same automaton state; everything else runs as it is. Token types are
concrete once the lexer has run, so the parser and its prediction machinery run
natively on every path."""
import os
import sys

from . import core as C
from . import ranges as R
from .core import SymInt
from .symstr import SymStr, opaque

SITE = "/opt/venv/lib/python3.12/site-packages"

INSTRUMENT = [
    "antlr4.InputStream", "antlr4.Token", "antlr4.Lexer", "antlr4.BufferedTokenStream", "antlr4.RuleContext",
    "antlr4.ParserRuleContext", "antlr4.tree.Tree", "antlr4.tree.Trees", "antlr4.error.ErrorStrategy",
    "antlr4.error.ErrorListener", "antlr4.CommonTokenFactory", "antlr4.error.Errors", "antlr4.Recognizer",
    "antlr4.CommonTokenStream", "antlr4.tree.Chunk",
]


def site_dir():
    for d in (SITE,):
        if os.path.isdir(os.path.join(d, "antlr4")):
            return d
    raise RuntimeError("antlr4 runtime not found")


def exact_paths():
    d = site_dir()
    return {m: os.path.join(d, m.replace(".", "/") + ".py") for m in INSTRUMENT}


def atn_atoms(atn):
    cuts = {0}
    for st in atn.states:
        if st is None:
            continue
        for tr in st.transitions:
            lab = getattr(tr, "label", None)
            if lab is not None:
                for iv in lab.intervals:
                    cuts.add(iv.start)
                    cuts.add(iv.stop)
            if hasattr(tr, "start") and isinstance(tr.start, int):
                cuts.add(tr.start)
                cuts.add(tr.stop + 1)
    cs = sorted(c for c in cuts if 0 <= c <= R.MAXCP)
    return [(a, b - 1) for a, b in zip(cs, cs[1:] + [R.MAXCP + 1])]


_PART = {}
_ATOMS = {}


def partition(sim, input, s, orig_existing, orig_compute):
    key = id(s)
    hit = _PART.get(key)
    if hit is not None and hit[0] is s:
        return hit[1]
    atoms = _ATOMS.get(id(sim.atn))
    if atoms is None:
        atoms = _ATOMS[id(sim.atn)] = atn_atoms(sim.atn)
    groups = {}
    order = []
    for lo, hi in atoms:
        t = lo
        target = orig_existing(sim, s, t)
        if target is None:
            target = orig_compute(sim, input, s, t)
        k = id(target)
        if k not in groups:
            groups[k] = (target, [])
            order.append(k)
        groups[k][1].append((lo, hi))
    part = [(groups[k][0], R.norm(groups[k][1])) for k in order]
    _PART[key] = (s, part)
    return part


def install():
    d = site_dir()
    if d not in sys.path:
        sys.path.append(d)
    from antlr4.atn.LexerATNSimulator import LexerATNSimulator
    from antlr4.Token import Token

    orig_existing = LexerATNSimulator.getExistingTargetState
    orig_compute = LexerATNSimulator.computeTargetState

    def getExistingTargetState(self, s, t):
        if isinstance(t, SymInt):
            part = partition(self, self._sx_input, s, orig_existing, orig_compute)
            if t.v is None:
                for target, rs in part[:-1]:
                    if C.i_in(t, rs):
                        return target
                return part[-1][0]
            k = C.CUR.split(t.v, [R.shift(rs, -t.off) for _, rs in part])
            return part[k][0]
        return orig_existing(self, s, t)

    orig_match = LexerATNSimulator.match

    def match(self, input, mode):
        self._sx_input = input
        return orig_match(self, input, mode)

    def consume(self, input):
        ch = input.LA(1)
        if isinstance(ch, SymInt):
            nl = C.i_eq(ch, 10)
            self.line = C.ite(nl, self.line + 1, self.line)
            self.column = C.ite(nl, 0, self.column + 1)
        elif ch == 10:
            self.line += 1
            self.column = 0
        else:
            self.column += 1
        input.consume()

    LexerATNSimulator.getExistingTargetState = getExistingTargetState
    LexerATNSimulator.match = match
    LexerATNSimulator.consume = consume

    from antlr4.Lexer import Lexer
    orig_disp = Lexer.getErrorDisplay

    def getErrorDisplay(self, s):
        if isinstance(s, SymStr):
            return opaque("errdisp", s)
        return orig_disp(self, s)

    Lexer.getErrorDisplay = getErrorDisplay
    from antlr4.error.ErrorStrategy import DefaultErrorStrategy
    orig_esc = DefaultErrorStrategy.escapeWSAndQuote

    def escapeWSAndQuote(self, s):
        if isinstance(s, SymStr):
            return opaque("escq", s)
        return orig_esc(self, s)

    DefaultErrorStrategy.escapeWSAndQuote = escapeWSAndQuote
    from antlr4.error.ErrorListener import ConsoleErrorListener

    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
        return None  # console output is not modelled

    ConsoleErrorListener.syntaxError = syntaxError

    from antlr4.tree.Trees import Trees
    orig_tree = Trees.toStringTree.__func__

    def toStringTree(cls, t, ruleNames=None, recog=None):
        text = t.getText()
        if isinstance(text, SymStr):
            return opaque("stringtree", text)
        return orig_tree(cls, t, ruleNames, recog)

    Trees.toStringTree = classmethod(toStringTree)
