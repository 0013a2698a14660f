"""Writes the tables of spec/Nfc.tla from the Unicode character database of this Python."""
import unicodedata as u, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
dec, excl, ccc = [], [], []
for c in range(0x110000):
    d = u.decomposition(chr(c))
    if d and not d.startswith("<"):
        x = [int(v, 16) for v in d.split()]; dec.append((c, x))
        if len(x) == 2 and u.normalize("NFC", u.normalize("NFD", chr(c))) != chr(c): excl.append(c)
    k = u.combining(chr(c))
    if k:
        if ccc and ccc[-1][1] == c - 1 and ccc[-1][2] == k: ccc[-1][1] = c
        else: ccc.append([c, c, k])
def table(rows, per=8):
    rows = ["<<" + ",".join(map(str, r)) + ">>" for r in rows]
    return ",\n  ".join(", ".join(rows[i:i + per]) for i in range(0, len(rows), per))
s = """-------------------------------- MODULE Nfc --------------------------------
(* Unicode %s NFC and UTF-8 on code point sequences: one-step canonical          *)
(* decompositions, the characters excluded from composition, and combining classes  *)
(* (first, last, class).  Hangul is algorithmic.  Tables by tools/mknfc.py.            *)
EXTENDS Naturals, Sequences, Octets
LOCAL INSTANCE TLC
LOCAL Dec == <<
  %s>>
LOCAL Excluded == {
  %s}
LOCAL Ccc == <<
  %s>>
LOCAL HasDec(c) == \\E i \\in 1..Len(Dec) : Dec[i][1] = c
LOCAL DecAt(c) == Tail(Dec[CHOOSE i \\in 1..Len(Dec) : Dec[i][1] = c])
LOCAL Class(c) == IF \\E i \\in 1..Len(Ccc) : Ccc[i][1] <= c /\\ c <= Ccc[i][2]
                  THEN Ccc[CHOOSE i \\in 1..Len(Ccc) : Ccc[i][1] <= c /\\ c <= Ccc[i][2]][3] ELSE 0

LOCAL SBase == 44032
RECURSIVE DecOne(_)
DecOne(c) ==
  IF HasDec(c) THEN LET d == DecAt(c) IN DecOne(d[1]) \\o Tail(d)
  ELSE IF c >= SBase /\\ c < SBase + 11172
  THEN LET s == c - SBase
       IN  <<4352 + (s \\div 588), 4449 + ((s %% 588) \\div 28)>> \\o (IF s %% 28 = 0 THEN <<>> ELSE <<4519 + (s %% 28)>>)
  ELSE <<c>>
""" % (u.unidata_version, table([(c, *x) for c, x in dec]), ",\n  ".join(", ".join(map(str, excl[i:i + 16])) for i in range(0, len(excl), 16)), table(ccc, 10))
old = open(V + "/spec/Nfc.tla").read()
rest = old[old.index("(* Canonical ordering:"):]
i = rest.find("LOCAL Composites"); i = i if i >= 0 else rest.index("LOCAL Primary")
j = rest.index("(* out: text so far;")
rest = rest[:i] + """LOCAL Composites(a, b) == {i \\in 1..Len(Dec) : Len(Dec[i]) = 3 /\\ Dec[i][2] = a /\\ Dec[i][3] = b /\\ Dec[i][1] \\notin Excluded}
LOCAL Primary(a, b) ==          \\* the composite of a and b, or 0
  IF Composites(a, b) # {} THEN Dec[CHOOSE i \\in Composites(a, b) : TRUE][1]
  ELSE IF a >= 4352 /\\ a < 4371 /\\ b >= 4449 /\\ b < 4470 THEN SBase + (a - 4352) * 588 + (b - 4449) * 28
  ELSE IF a >= SBase /\\ a < SBase + 11172 /\\ (a - SBase) % 28 = 0 /\\ b > 4519 /\\ b < 4547 THEN a + b - 4519
  ELSE 0
""" + rest[j:]
open(V + "/spec/Nfc.tla", "w").write(s + rest)

# the same tables for the evaluation of NFC by java/Overrides.java
def strings(rows):
    out, line = [], ""
    for r in rows:
        line += ",".join(map(str, r)) + ";"
        if len(line) > 110: out.append('    + "%s"' % line); line = ""
    return "\n".join(out + ['    + "%s"' % line])
open(V + "/java/NfcTable.java", "w").write("""// Unicode %s: canonical decompositions, composition exclusions, combining classes.
// Written by tools/mknfc.py, as the tables of spec/Nfc.tla are.
final class NfcTable {
  static final String DEC = ""
%s;
  static final String EXCLUDED = ""
%s;
  static final String CCC = ""
%s;
}
""" % (u.unidata_version, strings([(c, *x) for c, x in dec]), strings([(c,) for c in excl]), strings(ccc)))
