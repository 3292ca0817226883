# Regenerates Trig.tla (fixed-point tables); not run by the checks.
import math
def seq(f): return ", ".join(str(round(f(d))) for d in range(0, 181))
print("""-------------------------------- MODULE Trig --------------------------------
(* Fixed-point trigonometry for whole degrees. *)
EXTENDS Integers, Sequences
CosTable == <<%s>>
\\* 10^6 * cos(d + 0.01 degrees): the smoothing threshold with its slack
SlackTable == <<%s>>
Norm(d) == LET m == d %% 360 IN IF m > 180 THEN 360 - m ELSE m
Cos4(d) == CosTable[Norm(d) + 1]                 \\* 10^4 * cos
Sin4(d) == Cos4(d - 90)
SlackCos6(d) == SlackTable[d + 1]
=============================================================================""" % (
 seq(lambda d: 1e4*math.cos(math.radians(d))), seq(lambda d: 1e6*math.cos(math.radians(d+0.01)))))
