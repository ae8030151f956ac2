------------------------------ MODULE MCFiles ------------------------------
(* A few names and documents, every combination of a reduced set of options, any two runs in a row (the second one being    *)
(* any other or the same): what must be true of every run, whatever meshing computes.                                        *)
EXTENDS Files
CONSTANTS Names, Runs
VARIABLES fs, last, runs
vars == <<fs, last, runs>>

RECURSIVE SetToSeq2(_)
SetToSeq2(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetToSeq2(S \ {x})
\* some function of what meshing depends on
Mesh(key) == LET s == (IF key.par["dm"] = "7" THEN 1 ELSE 0) + key.body
                 L(a) == key.fx[a] \cup {s + a, s + a + 2}
             IN [ml |-> [a \in 1..3 |-> SetToSeq2(L(a))], pol |-> [a \in 1..3 |-> SetToSeq2(key.fx[a] \cup {s + a})]]
Ident == [x \in 0..20 |-> x]
Doc(b, p, x, xl, g, badp) == [k |-> "csx", body |-> b, p |-> p, x |-> x, xl |-> xl, g |-> g, bad |-> FALSE, badp |-> badp, badf |-> FALSE, badg |-> FALSE]
One(l) == [a \in 1..3 |-> IF a = 1 THEN l ELSE <<>>]
With(k, t) == [None EXCEPT ![k] = t]
Contents == {[k |-> "absent"], [k |-> "junk", raw |-> 1], Doc(1, None, "", NoLines, NoLines, FALSE), Doc(2, With("dm", "7"), "x", One(<<9>>), One(<<3, 5>>), FALSE), Doc(1, None, "", NoLines, NoLines, TRUE)}
Given(c) == IF c = "bad" THEN <<[k |-> "sm", v |-> [f |-> "num", n |-> 1000]]>> ELSE <<>>
Opts == [in : Names, out : Names, fmt : {"csx", "prettyprint"}, force : BOOLEAN, save : BOOLEAN, rp : BOOLEAN, kg : BOOLEAN, ml : BOOLEAN, pl : {FALSE}, limit : BOOLEAN,
         on : {<<TRUE, TRUE, TRUE>>}, ax : {<<TRUE, TRUE, TRUE>>, <<TRUE, FALSE, TRUE>>}, cli : {None, With("dm", "2"), With("lm", "5")}, fx : {NoLines, One(<<6>>)}, given : {<<>>, Given("bad")}]
Write(f, o) == IF ~ToFile(o) THEN f
               ELSE LET c == f[o.in]  m == Mesh(Key(c, o))  s == Saved(c, o)
                        g == [a \in 1..3 |-> SetToSeq2(Asked(m, o, a))]
                    IN [f EXCEPT ![o.out] = s @@ [g |-> g]]
Run(f, o) == IF Succeeds(f, o) THEN Write(f, o) ELSE IF Spoilt(f, o) THEN [f EXCEPT ![o.out] = [k |-> "junk", raw |-> 2]] ELSE f

Init == fs \in [Names -> Contents] /\ runs = 0 /\ last = [o |-> "none"]
Next == runs < Runs /\ runs' = runs + 1 /\ \E o \in Opts : fs' = Run(fs, o) /\ last' = [o |-> o, ok |-> Succeeds(fs, o)]
Spec == Init /\ [][Next]_vars
View == <<fs, runs>>

-----------------------------------------------------------------------------
O == last'.o
\* nothing is overwritten unless forced to, and nothing but the output ever changes
NoOverwrite == [][~O.force /\ Exists(fs[O.out]) => fs'[O.out] = fs[O.out]]_vars
OnlyOutput == [][\A x \in Names \ {O.out} : fs'[x] = fs[x]]_vars
\* a success is the whole output, a refusal leaves everything as it was
Whole == [][last'.ok => (~ToFile(O) /\ fs' = fs) \/ (IsDoc(fs'[O.out]) /\ fs'[O.out].body = fs[O.in].body /\ \A a \in 1..3 : Lists(fs'[O.out].g[a], Asked(Mesh(Key(fs[O.in], O)), O, a), Ident))]_vars
Refusal == [][Refused(fs, O) => fs' = fs /\ last'.ok = FALSE]_vars
BadAlways == [][BadCommand(O) => fs' = fs]_vars
\* doing it again changes nothing, when the parameters are read back and the lines are not fed back
Again == [][last'.ok /\ O.in = O.out /\ O.rp /\ O.save /\ ~O.kg /\ O.fx = NoLines => Run(fs', [O EXCEPT !.force = TRUE]) = fs']_vars
\* what was saved is what is read back: the same lines again with nothing on the command line
RoundTrip == [][last'.ok /\ ToFile(O) /\ O.save /\ O.fx = NoLines /\ O.rp /\ ~O.kg =>
                 LET o2 == [O EXCEPT !.in = O.out, !.cli = None, !.force = TRUE] IN Run(fs', o2)[O.out] = fs'[O.out]]_vars
\* one parameter given does not change another one
Apart == [][ToFile(O) /\ last'.ok /\ O.save => \A k \in Params : O.cli[k] = "" => fs'[O.out].p[k] = Effective(None, fs[O.in].p, O.rp)[k]]_vars
\* saving without parameters leaves none
Without == [][ToFile(O) /\ last'.ok /\ ~O.save => fs'[O.out].p = None /\ fs'[O.out].x = ""]_vars
=============================================================================
