------------------------------- MODULE JudgeWad -------------------------------
(* What the real reader returned for a file is judged against ReadWad,       *)
(* ReadPalette and ToRgb.                                                    *)
EXTENDS Wad, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, out
vars == <<c, out>>
Case == Cases[c]
If(b, t, at) == IF b THEN {[t |-> t, at |-> ToString(at)]} ELSE {}

TexDevs(e, o, i) ==
  If(o.name # e.name, "name", i) \cup If(o.dim # e.dim, "size", i)
  \cup If(o.present # e.present, "levels", i) \cup If(o.mips # e.mips, "pixels", i)
  \cup If(o.pal # e.pal, "palette", i)
RgbDevs(e, o, i) ==
  IF o.st # e.st THEN If(TRUE, "rgb_status", i)
  ELSE IF e.st = "err" THEN {}
  ELSE If(o.name # e.name, "rgb_name", i) \cup If(o.dim # e.dim, "rgb_size", i)
       \cup If(o.present # e.present, "rgb_levels", i) \cup If(o.mips # e.mips, "rgb_pixels", i)
WadDevs ==
  LET r == TLCEval(ReadWad(Case.f, Case.white, Case.mips))  o == Case.obs IN
  If(o.unstable, "unstable", "")
  \cup (IF o.failed   \* a read error was delivered to the reader
        THEN If(o.st # "err", "error_ignored", o.st)
        ELSE IF o.st # r.st THEN If(TRUE, "status_" \o o.st, r.st)
        ELSE IF r.st = "err" THEN {}
        ELSE If(Len(o.tex) # Len(r.tex), "count", <<Len(o.tex), Len(r.tex)>>)
             \cup UNION {TexDevs(r.tex[i], o.tex[i], i) : i \in 1..(IF Len(o.tex) < Len(r.tex) THEN Len(o.tex) ELSE Len(r.tex))}
             \cup (IF ~Case.convert THEN {}
                   ELSE If(Len(o.rgb) # Len(o.tex), "rgb_count", Len(o.rgb))
                        \cup (IF Len(o.rgb) # Len(r.tex) THEN {}
                              ELSE UNION {RgbDevs(ToRgb(r.tex[i], Case.supplied), o.rgb[i], i) : i \in 1..Len(r.tex)})))
PaletteDevs ==
  LET r == ReadPalette(Case.f)  o == Case.obs IN
  IF o.failed THEN If(o.st # "err", "error_ignored", o.st)
  ELSE IF o.st # (IF r.ok THEN "ok" ELSE "err") THEN If(TRUE, "status_" \o o.st, r.ok)
  ELSE If(r.ok /\ o.pal # r.b, "colours", "")
Deviations == IF Case.missing THEN If(Case.obs.st # "err", "no_error", Case.obs.st)
              ELSE IF Case.kind = "palette" THEN PaletteDevs ELSE WadDevs
Init == c \in 1..Len(Cases) /\ out = "read"
Next == /\ out = "read" /\ out' = "judged" /\ UNCHANGED c
        /\ PrintT("@@" \o ToJson([id |-> Case.id, bad |-> Deviations]))
Spec == Init /\ [][Next]_vars
=============================================================================
