------------------------------- MODULE Files -------------------------------
(* The command line program as a transition on a file system. A file holds a CSX document, or something else; a run reads  *)
(* one, meshes it and writes another one, or fails. What a document holds of its own is an opaque body; the grid is made   *)
(* of lines, given by their ranks; parameters are texts ("" : not there).                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Params == {"pl", "sm", "dm", "lm", "dd", "dl", "da"}
None == [k \in Params |-> ""]
Default == [pl |-> "1", sm |-> "2", dm |-> "2.5", lm |-> "2", dd |-> "0.20000000000000001", dl |-> "2", da |-> "20"]
Effective(cli, docp, reads) == [k \in Params |-> IF cli[k] # "" THEN cli[k] ELSE IF reads /\ docp[k] # "" THEN docp[k] ELSE Default[k]]
Elems(s) == {s[i] : i \in 1..Len(s)}
NoLines == [a \in 1..3 |-> <<>>]
Join(f, g) == [a \in 1..3 |-> f[a] \cup g[a]]
Sets(ls) == [a \in 1..3 |-> Elems(ls[a])]
Nothing == [a \in 1..3 |-> {}]

-----------------------------------------------------------------------------
\* what is given for an option: a number (in thousandths), or something that is none
Number(v) == v.f = "num"
Natural(v) == Number(v) /\ v.n >= 0 /\ v.n % 1000 = 0
Allowed(k, v) ==
    CASE k = "pl" -> Number(v) /\ v.n >= 0
      [] k = "sm" -> Number(v) /\ v.n > 1000 /\ v.n <= 2000
      [] k \in {"dm", "dd"} -> Number(v) /\ v.n > 0
      [] k \in {"lm", "dl"} -> Natural(v)
      [] k = "da" -> Number(v)
      [] k = "fx" -> Number(v)
      [] k \in {"axis", "format", "switch", "option"} -> v.f = "known"
      [] OTHER -> FALSE
BadCommand(o) == \E i \in 1..Len(o.given) : ~Allowed(o.given[i].k, o.given[i].v)

-----------------------------------------------------------------------------
\* what a name leads to
IsDoc(c) == c.k = "csx"
Exists(c) == c.k \notin {"absent", "nodir"}
Readable(c) == c.k \notin {"absent", "nodir", "dir"}
Writable(c) == c.k \notin {"nodir", "dir", "full"}
Refuses(c, o) == ~IsDoc(c) \/ c.bad \/ (o.rp /\ (c.badp \/ c.badf)) \/ (o.kg /\ c.badg)
ToFile(o) == o.fmt # "prettyprint"
Overwrites(fs, o) == ToFile(o) /\ ~o.force /\ Exists(fs[o.out])
\* refused before anything is written
Refused(fs, o) == BadCommand(o) \/ ~Readable(fs[o.in]) \/ Refuses(fs[o.in], o) \/ Overwrites(fs, o)
CannotWrite(fs, o) == ToFile(o) /\ (~Writable(fs[o.out]) \/ o.limit)
Succeeds(fs, o) == ~Refused(fs, o) /\ ~CannotWrite(fs, o)
\* only what is being written may be damaged, and only when writing it was fine but went wrong
Spoilt(fs, o) == ~Refused(fs, o) /\ CannotWrite(fs, o) /\ Writable(fs[o.out])

-----------------------------------------------------------------------------
\* what meshing depends on
Fixed(c, o) == Join(Sets(o.fx), Join(IF o.rp THEN Sets(c.xl) ELSE Nothing, IF o.kg THEN Sets(c.g) ELSE Nothing))
Key(c, o) == [body |-> c.body, par |-> Effective(o.cli, c.p, o.rp), on |-> o.on, fx |-> Fixed(c, o)]
\* the lines asked for, of a result that has regular and policy lines: each of them (two of one class are one) once, in order
Asked(m, o, a) == IF ~o.ax[a] THEN {} ELSE (IF o.ml THEN Elems(m.ml[a]) ELSE {}) \cup (IF o.pl THEN Elems(m.pol[a]) ELSE {})
Lists(ls, S, cls) == /\ \A i \in 1..(Len(ls) - 1) : ls[i] < ls[i + 1]
                     /\ Elems(ls) \subseteq S
                     /\ {cls[x] : x \in Elems(ls)} = {cls[x] : x \in S}
                     /\ Cardinality({cls[x] : x \in S}) = Len(ls)
Grid(g, m, o, cls) == \A a \in 1..3 : Lists(g[a], Asked(m, o, a), cls)
\* the document that is written, save its grid
Saved(c, o) == [k |-> "csx", body |-> c.body, p |-> IF o.save THEN Effective(o.cli, c.p, o.rp) ELSE None,
                x |-> IF o.save THEN c.x ELSE "", xl |-> IF o.save THEN c.xl ELSE NoLines,
                bad |-> FALSE, badp |-> FALSE, badf |-> o.save /\ c.badf, badg |-> FALSE]
=============================================================================
