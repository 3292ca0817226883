-------------------------------- MODULE Trig --------------------------------
(* Fixed-point trigonometry for whole degrees. *)
EXTENDS Integers, Sequences
CosTable == <<10000, 9998, 9994, 9986, 9976, 9962, 9945, 9925, 9903, 9877, 9848, 9816, 9781, 9744, 9703, 9659, 9613, 9563, 9511, 9455, 9397, 9336, 9272, 9205, 9135, 9063, 8988, 8910, 8829, 8746, 8660, 8572, 8480, 8387, 8290, 8192, 8090, 7986, 7880, 7771, 7660, 7547, 7431, 7314, 7193, 7071, 6947, 6820, 6691, 6561, 6428, 6293, 6157, 6018, 5878, 5736, 5592, 5446, 5299, 5150, 5000, 4848, 4695, 4540, 4384, 4226, 4067, 3907, 3746, 3584, 3420, 3256, 3090, 2924, 2756, 2588, 2419, 2250, 2079, 1908, 1736, 1564, 1392, 1219, 1045, 872, 698, 523, 349, 175, 0, -175, -349, -523, -698, -872, -1045, -1219, -1392, -1564, -1736, -1908, -2079, -2250, -2419, -2588, -2756, -2924, -3090, -3256, -3420, -3584, -3746, -3907, -4067, -4226, -4384, -4540, -4695, -4848, -5000, -5150, -5299, -5446, -5592, -5736, -5878, -6018, -6157, -6293, -6428, -6561, -6691, -6820, -6947, -7071, -7193, -7314, -7431, -7547, -7660, -7771, -7880, -7986, -8090, -8192, -8290, -8387, -8480, -8572, -8660, -8746, -8829, -8910, -8988, -9063, -9135, -9205, -9272, -9336, -9397, -9455, -9511, -9563, -9613, -9659, -9703, -9744, -9781, -9816, -9848, -9877, -9903, -9925, -9945, -9962, -9976, -9986, -9994, -9998, -10000>>
\* 10^6 * cos(d + 0.01 degrees): the smoothing threshold with its slack
SlackTable == <<1000000, 999845, 999385, 998620, 997552, 996179, 994504, 992525, 990244, 987661, 984777, 981594, 978111, 974331, 970253, 965881, 961214, 956254, 951003, 945462, 939633, 933518, 927118, 920437, 913474, 906234, 898718, 890927, 882866, 874535, 865938, 857077, 847956, 838575, 828940, 819052, 808914, 798530, 787903, 777036, 765932, 754595, 743028, 731235, 719219, 706983, 694533, 681871, 669001, 655927, 642654, 629185, 615524, 601676, 587644, 573433, 559048, 544493, 529771, 514888, 499849, 484657, 469317, 453835, 438214, 422460, 406577, 390570, 374445, 358205, 341856, 325403, 308851, 292205, 275470, 258650, 241753, 224781, 207741, 190638, 173476, 156262, 139000, 121696, 104355, 86982, 69582, 52162, 34725, 17278, -175, -17627, -35074, -52510, -69931, -87330, -104702, -122043, -139346, -156607, -173820, -190980, -208082, -225121, -242091, -258988, -275805, -292539, -309183, -325733, -342184, -358531, -374768, -390892, -406896, -422776, -438528, -454146, -469626, -484962, -500151, -515188, -530067, -544785, -559338, -573719, -587926, -601954, -615799, -629456, -642921, -656191, -669260, -682126, -694784, -707230, -719461, -731473, -743262, -754824, -766157, -777256, -788118, -798741, -809120, -819252, -829135, -838766, -848141, -857257, -866113, -874704, -883030, -891086, -898871, -906382, -913616, -920573, -927249, -933643, -939752, -945575, -951110, -956356, -961310, -965971, -970338, -974409, -978184, -981660, -984838, -987716, -990292, -992567, -994540, -996210, -997576, -998639, -999397, -999851, -1000000>>
Norm(d) == LET m == d % 360 IN IF m > 180 THEN 360 - m ELSE m
Cos4(d) == CosTable[Norm(d) + 1]                 \* 10^4 * cos
Sin4(d) == Cos4(d - 90)
\* the same for thousandths of a degree up to 179 degrees: the chord between
\* two whole degrees and how far the cosine bends away from it
SlackCos6(v) ==
  LET d == v \div 1000   f == v % 1000
      a == SlackTable[d + 1]   b == IF f = 0 THEN a ELSE SlackTable[d + 2]
      bend == (((a \div 1000) * ((f * (1000 - f)) \div 1000)) * 1523) \div 10000000
  IN a + ((b - a) * f) \div 1000 + bend
=============================================================================
