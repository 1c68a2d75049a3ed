---- MODULE ReplacerMC ----
(* Every file of up to four lines out of a small stock, with several sets
   of fields: the laws that follow from the definitions in Replacer. *)
EXTENDS Replacer, TLC, Json
CONSTANTS MaxLines, EmitLines
VARIABLES file, fields, done

C(t) == [t |-> t, nl |-> "\n"]
Stock == { C(<<"c","l","a","s","s"," ","A","(","B",")",":">>),
           C(<<"c","l","a","s","s"," ","B",":">>),
           C(<<" ","#","#","#"," ","{","{","{">>),
           C(<<"#","#","#"," ","{","{","{"," ","A">>),
           C(<<" "," ","#","#","#"," ","{","{","{","B"," ","x">>),
           C(<<"#","#","#"," ","}","}","}">>),
           [t |-> <<" "," "," ","#","#","#"," ","}","}","}"," ">>, nl |-> "\r\n"],
           C(<<"x">>),
           C(<<" ","c","l","a","s","s"," ","A">>),
           C(<<>>) }
F(n, ls) == [name |-> n, lines |-> ls]
FieldSets == { <<>>,
               <<F(<<"A">>, << <<"y">> >>)>>,
               <<F(<<"B">>, << <<"y">>, <<>>, <<" ","z">> >>), F(<<"Q">>, << <<"q">> >>)>>,
               <<F(<<"A">>, << <<>> >>), F(<<"B">>, << <<"c","l","a","s","s"," ","A">> >>)>> }

Init == file = <<>> /\ fields \in FieldSets /\ done = FALSE
Next == /\ ~done
        /\ \/ /\ Len(file) < MaxLines /\ \E l \in Stock : file' = Append(file, l)
              /\ UNCHANGED done
           \/ /\ Len(file) <= EmitLines /\ file # <<>>
              /\ PrintT(<<"EMIT", ToJson([file |-> file, fields |-> fields])>>)
              /\ done' = TRUE /\ UNCHANGED file
        /\ UNCHANGED fields
Spec == Init /\ [][Next]_<<file, fields, done>>

Opens(f) == {j \in DOMAIN f : Kind(f[j].t).k = "open"}
Closes(f) == {j \in DOMAIN f : Kind(f[j].t).k = "close"}
Before(f, j) == Cardinality({k \in Opens(f) : k <= j}) - Cardinality({k \in Closes(f) : k <= j})

(* independent of the scanner: badly nested files are refused *)
NestingRefused == fields # <<>> /\ (\E j \in 0..Len(file) : Before(file, j) \notin {0, 1} \/ (j = Len(file) /\ Before(file, j) # 0))
                  => Refused(file, fields)
TwiceIsOnce == Refused(file, fields) \/ New(New(file, fields), fields) = New(file, fields)
StillGood == Refused(file, fields) \/ ~Refused(New(file, fields), fields)
AcceptsItself == Refused(file, fields) \/ Becomes(file, fields, New(file, fields))
NothingNamedNothingDone == fields = <<>> => New(file, fields) = file
(* what is outside of the blocks stays, in order *)
Outside(f) == SelectSeq([j \in DOMAIN f |-> [l |-> f[j], in |-> Before(f, j) = 1 \/ j \in Closes(f)]], LAMBDA x : ~x.in)
OutsideStays == Refused(file, fields) \/ Outside(New(file, fields)) = Outside(file)
(* the markers stay, the closing ones apart from their indentation *)
MarksOf(f) == LET q == SelectSeq(f, LAMBDA l : Kind(l.t).k \in {"open", "close"}) IN
              [j \in DOMAIN q |-> IF Kind(q[j].t).k = "open" THEN q[j].t ELSE RTrim(LTrim(q[j].t))]
MarksStay == Refused(file, fields) \/ MarksOf(New(file, fields)) = MarksOf(file)
====
