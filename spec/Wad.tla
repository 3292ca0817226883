---------------------------------- MODULE Wad ----------------------------------
(* WAD texture files as byte sequences, and reading them.                    *)
(*                                                                           *)
(* Numbers in the file are 32-bit; everything from Cap on leads outside any  *)
(* file considered here, so they saturate there.                             *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Cap == 268435456
U32(f, o) == IF f[o + 4] >= 16 THEN Cap
             ELSE f[o + 1] + 256 * f[o + 2] + 65536 * f[o + 3] + 16777216 * f[o + 4]
Mul(w, h) == IF w = 0 \/ h = 0 THEN 0 ELSE IF w > Cap \div h THEN Cap ELSE w * h

NotRead == [ok |-> FALSE, b |-> <<>>]
\* n bytes at offset o; none can be read beyond the end
Slice(f, o, n) == IF n = 0 THEN [ok |-> TRUE, b |-> <<>>]
                  ELSE IF o + n > Len(f) THEN NotRead
                  ELSE [ok |-> TRUE, b |-> SubSeq(f, o + 1, o + n)]

UpToNul(b) == LET z == {i \in 1..Len(b) : b[i] = 0}
              IN IF z = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
LowerByte(c) == IF c \in 65..90 \/ (c \in 192..222 /\ c # 215) THEN c + 32 ELSE c
LowerName(b) == [i \in 1..Len(b) |-> LowerByte(b[i])]

HeaderBytes == 12
EntryBytes == 32
TexBytes == 40
PaletteBytes == 768
PaletteGap == 2

\* [k: "WAD2" | "WAD3" | "bad", n, dir]
Header(f) ==
  IF Len(f) < HeaderBytes THEN [k |-> "bad", n |-> 0, dir |-> 0]
  ELSE [k |-> IF SubSeq(f, 1, 3) # <<87, 65, 68>> THEN "bad"
              ELSE CASE f[4] = 50 -> "WAD2" [] f[4] = 51 -> "WAD3" [] OTHER -> "bad",
        n |-> U32(f, 4), dir |-> U32(f, 8)]

DirectoryFits(f, h) == h.n = 0 \/ (h.n <= Len(f) /\ h.dir + h.n * EntryBytes <= Len(f))
EntryAt(f, h, k) ==   \* k counts from 0
  LET o == h.dir + k * EntryBytes
  IN [off |-> U32(f, o), type |-> f[o + 13], name |-> UpToNul(SubSeq(f, o + 17, o + 32))]
IsTexture(e) == e.type \in {67, 68}
\* white: <<>> without a whitelist, else <<list of names>>
Wanted(e, white) == IsTexture(e) /\ (white = <<>> \/ \E i \in 1..Len(white[1]) : white[1][i] = e.name)
Directory(f, h, white) ==
  SelectSeq([k \in 1..h.n |-> EntryAt(f, h, k - 1)], LAMBDA e : Wanted(e, white))

TexFits(f, e) == e.off + TexBytes <= Len(f)
TexHeader(f, e) ==
  LET o == e.off IN
  [name |-> LowerName(UpToNul(SubSeq(f, o + 1, o + 16))), w |-> U32(f, o + 16), h |-> U32(f, o + 20),
   o1 |-> U32(f, o + 24), o8 |-> U32(f, o + 36)]
LevelSizes(t) == LET s == Mul(t.w, t.h) IN <<s, s \div 4, (s \div 4) \div 4, ((s \div 4) \div 4) \div 4>>
Total(sizes, m) == FoldLeft(LAMBDA a, i : a + sizes[i], 0, [i \in 1..m |-> i])

\* What one reader has to fetch for a texture: two stretches of the file
Job(e, t, kind, mips) ==
  LET s == LevelSizes(t) IN
  [data |-> <<e.off + t.o1, Total(s, mips)>>, fits |-> s[1],
   pal |-> IF kind = "WAD3" THEN <<e.off + t.o8 + s[4] + PaletteGap, PaletteBytes>> ELSE <<0, 0>>,
   haspal |-> kind = "WAD3"]
RunJob(f, j) ==
  LET d == IF j.fits > Len(f) THEN NotRead ELSE Slice(f, j.data[1], j.data[2])
      p == IF j.haspal THEN Slice(f, j.pal[1], j.pal[2]) ELSE [ok |-> TRUE, b |-> <<>>]
  IN [ok |-> d.ok /\ p.ok, data |-> d.b, pal |-> IF j.haspal THEN <<p.b>> ELSE <<>>]

Levels(data, sizes, m) ==
  [i \in 1..m |-> SubSeq(data, Total(sizes, i - 1) + 1, Total(sizes, i))]

Err == [st |-> "err", tex |-> <<>>]
ReadWad(f, white, mips) ==
  LET h == Header(f) IN
  IF h.k = "bad" \/ ~DirectoryFits(f, h) THEN Err ELSE
  LET d == TLCEval(Directory(f, h, white)) IN
  IF \E i \in 1..Len(d) : ~TexFits(f, d[i]) THEN Err ELSE
  LET t == TLCEval([i \in 1..Len(d) |-> TexHeader(f, d[i])])
      r == TLCEval([i \in 1..Len(d) |-> RunJob(f, Job(d[i], t[i], h.k, mips))])
  IN IF \E i \in 1..Len(d) : ~r[i].ok THEN Err
     ELSE [st |-> "ok",
           tex |-> [i \in 1..Len(d) |->
             [name |-> t[i].name, dim |-> <<t[i].w, t[i].h>>, pal |-> r[i].pal,
              present |-> [l \in 1..4 |-> l <= mips],
              mips |-> Levels(r[i].data, LevelSizes(t[i]), mips)]]]

----------------------------------------------------------------------------
(* Palettes and colours                                                      *)
ReadPalette(f) == Slice(f, 0, PaletteBytes)
ColourOf(pal, idx) == <<pal[3 * idx + 1], pal[3 * idx + 2], pal[3 * idx + 3]>>
ToColours(level, pal) ==
  [i \in 1..(3 * Len(level)) |-> pal[3 * level[((i - 1) \div 3) + 1] + ((i - 1) % 3) + 1]]
\* supplied: <<>> or <<palette>>
ToRgb(tex, supplied) ==
  LET pal == IF tex.pal # <<>> THEN tex.pal ELSE supplied IN
  IF pal = <<>> THEN [st |-> "err"]
  ELSE [st |-> "ok", name |-> tex.name, dim |-> tex.dim, present |-> tex.present,
        mips |-> [i \in 1..Len(tex.mips) |-> ToColours(tex.mips[i], pal[1])]]
=============================================================================
