import gll
CHECKS = {}
for p in gll.PLAN:
    CHECKS[p] = gll.check
import lr
for p in lr.PLAN:
    CHECKS[p] = lr.check
import lex
for p in lex.PLAN:
    CHECKS[p] = lex.check
import ff
CHECKS["F01"] = ff.check
import types_ as types08
CHECKS["L08"] = types08.check
import runs, tool
CHECKS["G08"] = runs.check
for p in tool.PLAN:
    CHECKS[p] = tool.check
