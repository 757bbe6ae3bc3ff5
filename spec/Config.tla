------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The configuration file: what it says, and what the program must do      *)
(* about it.                                                               *)
(*                                                                         *)
(* The file is a sequence of lines.  '#' starts a comment.  A line which   *)
(* starts with something else than white space is a section, "name:", the  *)
(* others are entries of the latest section, "name" or "name argument".    *)
(*                                                                         *)
(*    Parse(lines)    the sections, or that there is no such thing         *)
(*    Settings(secs)  what they amount to, or that they are no good        *)
(*    Judge(e)        is that what the program did                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(f) == {f[i] : i \in DOMAIN f}
Ch(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, i)
Space == {" ", "\t", "\r", "\f"}
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
UP == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LO == "abcdefghijklmnopqrstuvwxyz"

RECURSIVE Lower(_)
Lower(s) ==
    IF s = "" THEN ""
    ELSE LET c == Ch(s, 1)
             k == {i \in 1..26 : Ch(UP, i) = c}
         IN (IF k = {} THEN c ELSE Ch(LO, CHOOSE i \in k : TRUE)) \o Lower(SubSeq(s, 2, Len(s)))

Same(a, b) == Len(a) = Len(b) /\ Lower(a) = Lower(b)

\* The first position in s[i..] of one of the characters in cs (or past the end)
RECURSIVE Find(_, _, _)
Find(s, i, cs) == IF i > Len(s) \/ Ch(s, i) \in cs THEN i ELSE Find(s, i + 1, cs)
\* ... of one which is not
RECURSIVE Skip(_, _, _)
Skip(s, i, cs) == IF i > Len(s) \/ Ch(s, i) \notin cs THEN i ELSE Skip(s, i + 1, cs)

RECURSIVE TrimRight(_)
TrimRight(s) == IF s # "" /\ Ch(s, Len(s)) \in Space THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s

---------------------------------------------------------------------------
(* Syntax *)

Bare(line) == TrimRight(SubSeq(line, 1, Find(line, 1, {"#"}) - 1))

EntryOf(b) ==
    LET i == Skip(b, 1, Space)
        j == Find(b, i, Space)
        k == Skip(b, j, Space)
    IN [name |-> SubSeq(b, i, j - 1), has |-> k <= Len(b), arg |-> SubSeq(b, k, Len(b))]

Nothing == [ok |-> FALSE, secs |-> <<>>]

RECURSIVE ParseFrom(_, _, _)
ParseFrom(lines, n, secs) ==
    IF n > Len(lines) THEN [ok |-> TRUE, secs |-> secs]
    ELSE LET b == Bare(lines[n]) IN
         IF b = "" THEN ParseFrom(lines, n + 1, secs)
         ELSE IF Ch(b, 1) \in Space
         THEN IF secs = <<>> THEN Nothing
              ELSE ParseFrom(lines, n + 1, [secs EXCEPT ![Len(secs)].ents = Append(@, EntryOf(b))])
         ELSE LET name == SubSeq(b, 1, Len(b) - 1) IN
              IF Find(b, 1, {":"}) # Len(b) \/ \E i \in DOMAIN secs : Same(secs[i].name, name) THEN Nothing
              ELSE ParseFrom(lines, n + 1, Append(secs, [name |-> name, ents |-> <<>>]))

Parse(lines) == ParseFrom(lines, 1, <<>>)

---------------------------------------------------------------------------
(* Sizes: 4096, 4k, 0.5M, 1e4, 3.5 Gb ... *)

TOP == 1000000000       \* as good as infinite here
Fail == -1

RECURSIVE Num(_, _)     \* digits to number
Num(s, acc) == IF s = "" THEN acc
               ELSE IF acc >= 100000000 THEN TOP
               ELSE Num(SubSeq(s, 2, Len(s)), acc * 10 + ((CHOOSE i \in 1..10 : Ch("0123456789", i) = Ch(s, 1)) - 1))

RECURSIVE P10(_)
P10(n) == IF n = 0 THEN 1 ELSE 10 * P10(n - 1)

Unit(c) == CASE c = "" -> 1 [] Lower(c) = "k" -> 1024 [] Lower(c) = "m" -> 1048576 [] Lower(c) = "g" -> 1073741824
             [] Lower(c) \in {"t", "p"} -> TOP [] OTHER -> 0

\* m * 10^e * u, rounded
Value(m, e, u) ==
    IF m = 0 THEN 0
    ELSE IF e >= 9 \/ u >= TOP \/ (m >= TOP) THEN TOP
    ELSE IF e >= 0 THEN (IF m > (TOP \div u) \div P10(e) THEN TOP ELSE m * P10(e) * u)
    ELSE IF e < -9 THEN 0
    ELSE IF m > TOP \div u THEN TOP
    ELSE LET d == P10(-e) IN (m * u) \div d + (IF (m * u) % d >= d \div 2 THEN 1 ELSE 0)

Size(s) ==
    LET neg == s # "" /\ Ch(s, 1) = "-"
        i0 == IF s # "" /\ Ch(s, 1) \in {"-", "+"} THEN 2 ELSE 1
        i1 == Skip(s, i0, Digit)
        dot == i1 <= Len(s) /\ Ch(s, i1) = "."
        i2 == IF dot THEN Skip(s, i1 + 1, Digit) ELSE i1
        int == SubSeq(s, i0, i1 - 1)
        frac == IF dot THEN SubSeq(s, i1 + 1, i2 - 1) ELSE ""
        ex == i2 <= Len(s) /\ Ch(s, i2) \in {"e", "E"}
        es == ex /\ i2 < Len(s) /\ Ch(s, i2 + 1) \in {"+", "-"}
        i3 == IF ~ex THEN i2 ELSE Skip(s, i2 + (IF es THEN 2 ELSE 1), Digit)
        exp == IF ~ex THEN "" ELSE SubSeq(s, i2 + (IF es THEN 2 ELSE 1), i3 - 1)
        e0 == IF exp = "" THEN 0 ELSE Num(exp, 0) * (IF es /\ Ch(s, i2 + 1) = "-" THEN -1 ELSE 1)
        rest == SubSeq(s, i3, Len(s))
        u == IF rest # "" /\ Unit(Ch(rest, 1)) > 0 THEN Ch(rest, 1) ELSE ""
        rest2 == SubSeq(rest, Len(u) + 1, Len(rest))
    IN IF Len(int) + Len(frac) = 0 \/ (ex /\ exp = "") \/ neg \/ rest2 \notin {"", "b", "B"} THEN Fail
       ELSE Value(Num(int \o frac, 0), e0 - Len(frac), Unit(u))

---------------------------------------------------------------------------
(* Names of silos: one number, and what is to become of it *)

\* Positions of conversions: a % which is not half of %%
RECURSIVE Convs(_, _)
Convs(s, i) == IF i > Len(s) THEN <<>>
               ELSE IF Ch(s, i) # "%" THEN Convs(s, i + 1)
               ELSE IF Ch(s, i + 1) = "%" THEN Convs(s, i + 2)
               ELSE <<i>> \o Convs(s, i + 1)
ConvEnd(s, i) == Skip(s, i + 1, Digit)
NameOK(s) == LET c == Convs(s, 1) IN
             /\ Len(c) = 1 /\ ConvEnd(s, c[1]) <= Len(s) /\ Ch(s, ConvEnd(s, c[1])) \in {"u", "d", "x"}
             /\ Find(s, 1, {"/"}) > Len(s)

RECURSIVE Plain(_)      \* %% to %
Plain(s) == LET i == Find(s, 1, {"%"}) IN
            IF i > Len(s) THEN s ELSE SubSeq(s, 1, i) \o Plain(SubSeq(s, i + 2, Len(s)))
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE c \o Rep(c, n - 1)
\* The name of silo n, in decimal
SiloName(s, n) ==
    LET i == Convs(s, 1)[1]
        j == ConvEnd(s, i)
        w == SubSeq(s, i + 1, j - 1)
        z == w # "" /\ Ch(w, 1) = "0"
        t == ToString(n)
    IN Plain(SubSeq(s, 1, i - 1)) \o Rep(IF z THEN "0" ELSE " ", (IF w = "" THEN 0 ELSE Num(w, 0)) - Len(t)) \o t
       \o Plain(SubSeq(s, j + 1, Len(s)))

---------------------------------------------------------------------------
(* Settings *)

Section(secs, n) == {i \in DOMAIN secs : Same(secs[i].name, n)}
Entries(secs, n) == LET k == Section(secs, n) IN IF k = {} THEN <<>> ELSE secs[CHOOSE i \in k : TRUE].ents

\* A setting with one value, which may have a default
One(secs, n, dflt) ==
    LET k == Section(secs, n)
        es == Entries(secs, n)
    IN IF k = {} THEN [ok |-> dflt # "", v |-> dflt]
       ELSE [ok |-> Len(es) = 1 /\ ~es[1].has, v |-> IF Len(es) = 1 THEN es[1].name ELSE ""]

EndsInSlash(s) == s # "" /\ Ch(s, Len(s)) = "/"

Bits(s) == IF s # "" /\ Skip(s, 1, Digit) > Len(s) THEN Num(s, 0) ELSE 0

Settings(secs) ==
    LET rid == Entries(secs, "WARC-Record-ID")
        bits == IF Len(rid) = 1 /\ rid[1].has THEN Bits(rid[1].arg) ELSE 128
        dir == One(secs, "silo.directory", "")
        max == One(secs, "silo.max_size", "3.5G")
        base == One(secs, "silo.basename", "%08u.warc.gz")
        sort == One(secs, "index.sort_size", "10M")
        Mimes(n) == LET es == Entries(secs, n) IN {Lower(es[i].name) : i \in DOMAIN es}
    IN [ok |-> /\ Len(rid) = 1 /\ EndsInSlash(rid[1].name) /\ bits >= 64 /\ bits <= 256 /\ bits % 4 = 0
               /\ dir.ok /\ EndsInSlash(dir.v)
               /\ max.ok /\ Size(max.v) # Fail
               /\ base.ok /\ NameOK(base.v)
               /\ sort.ok /\ Size(sort.v) # Fail /\ Size(sort.v) >= 4096,
        prefix |-> IF Len(rid) = 1 THEN rid[1].name ELSE "", idlen |-> bits \div 4, dir |-> dir.v,
        max |-> IF max.ok THEN Size(max.v) ELSE 0, base |-> base.v,
        resource |-> Mimes("resource.mime-types"), metadata |-> Mimes("metadata.mime-types"),
        body |-> Entries(secs, "warcinfo.body")]

Meaning(lines) == LET p == Parse(lines) IN IF p.ok THEN Settings(p.secs) ELSE [ok |-> FALSE]

---------------------------------------------------------------------------
(* What the program must do about it.                                      *)
(*                                                                         *)
(*  e.lines, e.regular, e.text  the file, whether it is one, and whether   *)
(*                 it is text                                              *)
(*  e.runs         what was run: [cmd, rc, out]                            *)
(*  e.mimes        objects stored: [wt, mime, dig, rc, out]                *)
(*  e.touched      anything in the file system is not as it was            *)
(*  e.dir          the silos are in the directory which is in the file     *)
(*  e.silos        their files: [n, path, sz, title, body], body being the *)
(*                 lines in the warcinfo record which are not              *)
(*                 about the program itself                                *)
(*  e.gets         [rc, same] for all objects stored                       *)

F(n, c) == IF c THEN {} ELSE {<<"C23", n>>}

Allowed(set, mime) == "*" \in set \/ Lower(mime) \in set

RECURSIVE BodyLines(_)
BodyLines(es) ==
    IF es = <<>> THEN <<>>
    ELSE (IF Lower(es[1].name) \in {"conformsto:", "format:", "software:", "title:"} THEN <<>>
          ELSE <<es[1].name \o (IF es[1].has THEN " " \o es[1].arg ELSE "")>>) \o BodyLines(Tail(es))

Judge(e) ==
    LET c == Meaning(e.lines)
        m == e.mimes
        Ok(i) == Allowed(IF m[i].wt = "resource" THEN c.resource ELSE c.metadata, m[i].mime)
    IN IF ~e.regular \/ ~e.text \/ ~c.ok
       THEN F("defective configuration accepted", \A i \in DOMAIN e.runs : e.runs[i].rc # 0)
       \cup F("defective configuration accepted", \A i \in DOMAIN m : m[i].rc # 0 /\ m[i].out = "")
       \cup F("something happened in spite of a defective configuration", ~e.touched)
       ELSE F("good configuration refused", \A i \in DOMAIN e.runs : e.runs[i].rc = 0)
       \cup F("ID size", \A i \in DOMAIN e.runs : e.runs[i].cmd = "info" => e.runs[i].out = "id_size: " \o ToString(c.idlen))
       \cup F("good configuration refused", \A i \in DOMAIN m : Ok(i) => m[i].rc = 0)
       \cup F("MIME type not in the configuration", \A i \in DOMAIN m : ~Ok(i) => m[i].rc # 0 /\ m[i].out = "")
       \cup F("form of ID", \A i \in DOMAIN m : m[i].rc = 0 =>
                /\ Len(m[i].out) = Len(c.prefix) + c.idlen /\ SubSeq(m[i].out, 1, Len(c.prefix)) = c.prefix
                /\ m[i].wt = "resource" => m[i].out = c.prefix \o SubSeq(m[i].dig, 1, c.idlen))
       \cup F("directory", e.dir)
       \cup F("what was stored", \A i \in DOMAIN e.gets : e.gets[i].rc = 0 /\ e.gets[i].same)
       \cup F("size of silos", c.max < TOP => \A i \in DOMAIN e.silos : e.silos[i].sz <= c.max)
       \cup F("names of silos", \A i \in DOMAIN e.silos : e.silos[i].name = SiloName(c.base, e.silos[i].n)
                                                         /\ e.silos[i].title = e.silos[i].name)
       \cup F("warcinfo", \A i \in DOMAIN e.silos : e.silos[i].body = BodyLines(c.body))
=============================================================================
