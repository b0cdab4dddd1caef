"""Writes spec/Tables.tla: fixed-point tables (10^4) of the natural logarithm and of ln(Phi(x))."""
import math, os
def rows(v):
    return ',\n  '.join(', '.join(str(x) for x in v[i:i + 20]) for i in range(0, len(v), 20))
ln = [round(1e4 * math.log(i)) for i in range(1, 1025)]
phi = [round(1e4 * math.log(0.5 * math.erfc(-(i * 0.05 - 5) / math.sqrt(2)))) for i in range(0, 201)]
ex = [round(1e4 * math.exp(-i * 0.05)) for i in range(0, 201)]
sn = [round(1e5 * math.sin(i * 0.01)) for i in range(0, 159)]
cs = [round(1e5 * math.cos(i * 0.01)) for i in range(0, 159)]
here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'Tables.tla')
open(here, 'w').write('''---- MODULE Tables ----
(* Written by tools/tables.py: 10^4 ln(i) for i = 1..1024; 10^4 ln(Phi(x)) for x = -5, -4.95, ..., 5; 10^4 exp(-x) for x = 0, 0.05, ..., 10; 10^5 sin(x) and 10^5 cos(x) for x = 0, 0.01, ..., 1.58. *)
EXTENDS Integers, Sequences
LnTable == <<
  %s>>
PhiTable == <<
  %s>>
ExpTable == <<
  %s>>
SinTable == <<
  %s>>
CosTable == <<
  %s>>
RECURSIVE Ln(_)
Ln(x) == IF x <= 1024 THEN LnTable[x] ELSE Ln(x \\div 2) + 6931
(* y in thousandths; linear interpolation *)
LnPhi(y) == IF y <= -5000 THEN PhiTable[1] ELSE IF y >= 5000 THEN 0
            ELSE LET k == (y + 5000) \\div 50 r == (y + 5000) %% 50 IN PhiTable[k + 1] + ((PhiTable[k + 2] - PhiTable[k + 1]) * r) \\div 50
(* 10^4 exp(-y / 1000), y >= 0 *)
ExpNeg(y) == IF y >= 10000 THEN 0 ELSE LET k == y \\div 50 r == y %% 50 IN ExpTable[k + 1] + ((ExpTable[k + 2] - ExpTable[k + 1]) * r) \\div 50
====
''' % (rows(ln), rows(phi), rows(ex), rows(sn), rows(cs)))
