"""The rules: property id -> deciding function."""
import re
import core, canon, contract, specs
from report import Guard

RULES = {}


class Rule(object):
    def __init__(self, fn, level, explain):
        self.fn, self.level, self.explain = fn, level, explain


def rule(pid, explain, level="other"):
    def d(f):
        RULES[pid] = Rule(f, level, explain)
        return f
    return d


CONTRACT = ("Path-sensitive value-flow analysis of the registered builtins' MIR (calls inlined, loops summarised as folds): every path that "
            "returns a value for the stated argument kinds must return the contract's normal form, every case must be returned by some path, and no "
            "path may return an error for arguments the contract accepts. Nothing is executed and no solver is used.")


def contract_rule(pid, name):
    @rule(pid, CONTRACT)
    def f(cx, rep, tier, name=name):
        rep.rule("for every builtin of the table: returned normal form == contract, case by case of argument kinds")
        contract.Checker(cx, rep, getattr(specs, name)).run()
        r_call.extra(cx, rep, pid)
    return f


contract_rule("P22", "MATH")
contract_rule("P27", "LIST")
contract_rule("P28", "STRING")
contract_rule("P29", "DICT")
contract_rule("P33", "CONV")
contract_rule("P34", "HOF")

import r_total, r_ops, r_eval, r_pipe, r_log, r_fmt, r_err, r_fs, r_call, r_data  # noqa
