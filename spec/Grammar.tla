------------------------------ MODULE Grammar ------------------------------
(* The statements of the happyml language over the tokens of Lexer.tla.                     *)
(* A parse is [st, p, v]: st is "ok", "no" (a failure message is required) or "open"        *)
(* (the documentation does not say); p is the next token; v what was recognised.            *)
EXTENDS Lexer
No == [st |-> "no", p |-> 0, v |-> <<>>]
Open == [st |-> "open", p |-> 0, v |-> <<>>]
Ok(p, v) == [st |-> "ok", p |-> p, v |-> v]
LabelAt(tk, i) == IF i <= Len(tk) THEN tk[i].label ELSE "end"
WordLike(tk, i) == i <= Len(tk) /\ Alpha(tk[i].text[1])
W(s) == Codes(s)
\* a name: any single word
Name(tk, i) == IF i > Len(tk) THEN No ELSE IF WordLike(tk, i) THEN Ok(i + 1, tk[i].text) ELSE Open
Whole(s) == s # <<>> /\ \A k \in 1..Len(s) : IsDigit(s[k])
IntTok(tk, i) == IF LabelAt(tk, i) # "_number" THEN No
              ELSE IF Whole(tk[i].text) THEN (IF Len(tk[i].text) <= 9 THEN Ok(i + 1, Dec(tk[i].text)) ELSE IF Len(tk[i].text) >= 11 THEN No ELSE Open)
              ELSE IF tk[i].text[1] = 46 THEN No ELSE Open
Stmt(k, a) == [k |-> k, a |-> a, cols |-> <<>>, ins |-> {}]
None == <<>>

Topics == {"_dataset", "_datasets", "_task", "_tasks", "_future", "_word"}
HelpStmt(tk, i) == IF LabelAt(tk, i) \in Topics THEN Ok(i + 1, Stmt("help", << LowerAll(tk[i].text) >>)) ELSE Ok(i, Stmt("help", << W("default") >>))
PrintStmt(tk, i) ==
    IF LabelAt(tk, i) \notin {"_raw", "_pretty"} THEN No
    ELSE LET n == Name(tk, i + 1) mode == LowerAll(tk[i].text)
         IN IF n.st # "ok" THEN n
            ELSE IF LabelAt(tk, n.p) # "_limit" THEN Ok(n.p, [Stmt("print", <<mode, n.v>>) EXCEPT !.cols = <<[s |-> <<>>, n |-> <<-1>>]>>])
            ELSE LET x == IntTok(tk, n.p + 1)
                 IN IF x.st # "ok" THEN x ELSE Ok(x.p, [Stmt("print", <<mode, n.v>>) EXCEPT !.cols = <<[s |-> <<>>, n |-> <<x.v>>]>>])

-----------------------------------------------------------------------------
\* create task <type> <name> [with goal <g>] [with test <d>] using <d>
RECURSIVE TaskOptions(_, _, _, _)
TaskOptions(tk, i, goal, test) ==
    IF LabelAt(tk, i) = "_with"
    THEN LET n == Name(tk, i + 2) what == LabelAt(tk, i + 1)
         IN IF what \notin {"_goal", "_test"} THEN No
            ELSE IF n.st # "ok" THEN n
            ELSE IF what = "_goal" THEN TaskOptions(tk, n.p, LowerAll(n.v), test) ELSE TaskOptions(tk, n.p, goal, n.v)
    ELSE IF LabelAt(tk, i) = "_using" THEN LET n == Name(tk, i + 1) IN IF n.st # "ok" THEN n ELSE Ok(n.p, <<goal, n.v, test>>)
    ELSE No
CreateTask(tk, i) ==
    LET t == Name(tk, i) IN
    IF t.st # "ok" THEN t ELSE
    LET n == Name(tk, t.p) IN
    IF n.st # "ok" THEN n ELSE
    LET r == TLCEval(TaskOptions(tk, n.p, W("accuracy"), None)) IN
    IF r.st # "ok" THEN r ELSE Ok(r.p, Stmt("create task", << LowerAll(t.v), n.v, r.v[1], r.v[2], r.v[3] >>))

-----------------------------------------------------------------------------
\* [(<columns>) | (<rows>, <columns>) | (<rows>, <columns>, <channels>)], none at all is (1, 1, 1)
RECURSIVE Ints(_, _, _)
Ints(tk, i, acc) ==
    LET x == IntTok(tk, i) IN
    IF x.st # "ok" THEN x
    ELSE IF LabelAt(tk, x.p) = "_close_parenthesis" THEN Ok(x.p + 1, Append(acc, x.v))
    ELSE IF LabelAt(tk, x.p) = "_comma" /\ Len(acc) < 2 THEN Ints(tk, x.p + 1, Append(acc, x.v))
    ELSE No
Dims(tk, i) ==
    IF LabelAt(tk, i) # "_open_parenthesis" THEN Ok(i, <<1, 1, 1>>)
    ELSE LET r == TLCEval(Ints(tk, i + 1, <<>>)) IN
         IF r.st # "ok" THEN r
         ELSE Ok(r.p, CASE Len(r.v) = 1 -> <<1, r.v[1], 1>> [] Len(r.v) = 2 -> <<r.v[1], r.v[2], 1>> [] OTHER -> r.v)
Types == {"_label", "_number", "_text", "_image"}
\* <type> <name> [dims] at <position>
ColumnGroup(tk, i, use) ==
    LET t == Name(tk, i) IN
    IF t.st # "ok" THEN t ELSE
    LET n == Name(tk, t.p) IN
    IF n.st # "ok" THEN n ELSE
    LET d == TLCEval(Dims(tk, n.p)) IN
    IF d.st # "ok" THEN d ELSE
    IF LabelAt(tk, d.p) # "_at" THEN No ELSE
    LET x == IntTok(tk, d.p + 1) IN
    IF x.st # "ok" THEN x
    ELSE IF LabelAt(tk, i) \notin Types \/ \E k \in 1..3 : d.v[k] = 0 \/ d.v[k] > 1000 THEN Open
    ELSE Ok(x.p, [s |-> <<use, LowerAll(t.v), n.v>>, n |-> <<x.v, d.v[1], d.v[2], d.v[3]>>])
UrlParts == {"_word", "_slash", "_backslash", "_dot", "_colon", "_number", "_underscore"}
RECURSIVE Path(_, _, _, _)
Path(tk, i, at, acc) ==
    IF i <= Len(tk) /\ tk[i].off = at /\ (LabelAt(tk, i) \in UrlParts \/ WordLike(tk, i))
    THEN Path(tk, i + 1, at + Len(tk[i].text), acc \o tk[i].text)
    ELSE Ok(i, acc)
Url(tk, i) ==
    LET s == Name(tk, i) IN
    IF s.st # "ok" THEN s
    ELSE IF LabelAt(tk, s.p) # "_colon" \/ LabelAt(tk, s.p + 1) # "_slash" \/ LabelAt(tk, s.p + 2) # "_slash" THEN No
    ELSE LET r == TLCEval(Path(tk, s.p + 3, tk[s.p + 2].off + 1, <<>>))
         IN IF r.v = <<>> THEN (IF s.p + 3 > Len(tk) THEN Open ELSE Open)
            ELSE Ok(r.p, LowerAll(s.v) \o W("://") \o r.v)
RECURSIVE DatasetOptions(_, _, _, _)
DatasetOptions(tk, i, header, cols) ==
    IF LabelAt(tk, i) = "_with"
    THEN IF LabelAt(tk, i + 1) = "_header" THEN DatasetOptions(tk, i + 2, TRUE, cols)
         ELSE IF LabelAt(tk, i + 1) \in {"_given", "_expected"}
         THEN LET g == TLCEval(ColumnGroup(tk, i + 2, LowerAll(tk[i + 1].text)))
              IN IF g.st # "ok" THEN g ELSE DatasetOptions(tk, g.p, header, Append(cols, g.v))
         ELSE No
    ELSE IF LabelAt(tk, i) = "_using" THEN LET u == TLCEval(Url(tk, i + 1)) IN IF u.st # "ok" THEN u ELSE Ok(u.p, <<header, cols, u.v>>)
    ELSE No
CreateDataset(tk, i) ==
    IF LabelAt(tk, i) # "_word" THEN No
    ELSE LET r == TLCEval(DatasetOptions(tk, i + 1, FALSE, <<>>))
         IN IF r.st # "ok" THEN r
            ELSE Ok(r.p, [k |-> "create dataset", a |-> << tk[i].text, r.v[3], IF r.v[1] THEN W("header") ELSE W("none") >>, cols |-> r.v[2], ins |-> {}])

-----------------------------------------------------------------------------
\* a string literal: the quotes go, and so does a backslash in front of that quote
RECURSIVE Unescape(_, _, _)
Unescape(s, i, q) == IF i > Len(s) THEN <<>>
    ELSE IF s[i] = 92 /\ i < Len(s) /\ s[i + 1] = q THEN <<q>> \o Unescape(s, i + 2, q)
    ELSE <<s[i]>> \o Unescape(s, i + 1, q)
Literal(t) == TLCEval(Unescape(SubSeq(t, 2, Len(t) - 1), 1, t[1]))
\* a value: [kind, text, num]
Value(tk, i) ==
    CASE LabelAt(tk, i) = "_string" -> Ok(i + 1, [kind |-> "s", text |-> Literal(tk[i].text), num |-> 0])
      [] LabelAt(tk, i) = "_word" -> Ok(i + 1, [kind |-> "s", text |-> tk[i].text, num |-> 0])
      [] LabelAt(tk, i) = "_number" -> IF tk[i].text = <<46>> THEN No
                                       ELSE IF Len(tk[i].text) > 7 THEN Open ELSE Ok(i + 1, [kind |-> "n", text |-> <<>>, num |-> Milli(tk[i].text)])
      [] OTHER -> No
RECURSIVE List(_, _, _)
List(tk, i, acc) ==
    IF LabelAt(tk, i) = "end" THEN No
    ELSE IF LabelAt(tk, i) = "_close_bracket" THEN Ok(i + 1, acc)
    ELSE LET x == TLCEval(Value(tk, i))
         IN IF x.st # "ok" THEN (IF x.st = "no" /\ LabelAt(tk, i) = "_number" THEN No ELSE Open)
            ELSE IF LabelAt(tk, x.p) = "_comma" /\ LabelAt(tk, x.p + 1) \notin {"_close_bracket", "end", "_comma"} THEN List(tk, x.p + 1, Append(acc, x.v))
            ELSE IF LabelAt(tk, x.p) \in {"_close_bracket", "end"} THEN List(tk, x.p, Append(acc, x.v))
            ELSE IF LabelAt(tk, x.p) = "_comma" /\ LabelAt(tk, x.p + 1) = "end" THEN No
            ELSE Open
Key(tk, i) == IF LabelAt(tk, i) = "_word" THEN LowerAll(tk[i].text) ELSE LowerAll(Literal(tk[i].text))
RECURSIVE Pairs(_, _, _)
Pairs(tk, i, acc) ==
    IF LabelAt(tk, i) = "end" THEN No
    ELSE IF LabelAt(tk, i) = "_close_parenthesis" THEN Ok(i + 1, acc)
    ELSE IF LabelAt(tk, i) \notin {"_word", "_string"} THEN No
    ELSE IF LabelAt(tk, i + 1) # "_colon" THEN No
    ELSE LET x == TLCEval(IF LabelAt(tk, i + 2) = "_open_bracket" THEN List(tk, i + 3, <<>>)
                          ELSE LET y == Value(tk, i + 2) IN IF y.st # "ok" THEN y ELSE Ok(y.p, <<y.v>>))
             key == TLCEval(Key(tk, i))
         IN IF x.st # "ok" THEN x
            ELSE IF \E q \in acc : q.key = key THEN Open
            ELSE LET more == acc \cup {[key |-> key, vals |-> x.v]}
                 IN IF LabelAt(tk, x.p) \in {"end", "_close_parenthesis"} THEN Pairs(tk, x.p, more)
                    ELSE IF LabelAt(tk, x.p) = "_comma"
                    THEN (IF LabelAt(tk, x.p + 1) = "_close_parenthesis" THEN Open ELSE Pairs(tk, x.p + 1, more))
                    ELSE Open
\* execute task <name> [with label <l>] using dataset <d> | using input (<key>: <value>, ...)
Execute(tk, i) ==
    IF LabelAt(tk, i) # "_task" \/ LabelAt(tk, i + 1) # "_word" THEN No
    ELSE LET labelled == LabelAt(tk, i + 2) = "_with"
             u == IF labelled THEN i + 5 ELSE i + 2
             name == tk[i + 1].text
             label == IF labelled /\ u - 1 <= Len(tk) THEN tk[u - 1].text ELSE None
         IN IF labelled /\ (LabelAt(tk, i + 3) # "_label" \/ LabelAt(tk, i + 4) # "_word") THEN No
            ELSE IF LabelAt(tk, u) # "_using" THEN No
            ELSE IF LabelAt(tk, u + 1) = "_dataset"
                 THEN IF LabelAt(tk, u + 2) # "_word" THEN No ELSE Ok(u + 3, Stmt("execute", <<name, label, tk[u + 2].text>>))
            ELSE IF LabelAt(tk, u + 1) = "_input"
                 THEN IF LabelAt(tk, u + 2) # "_open_parenthesis" THEN No
                      ELSE LET r == TLCEval(Pairs(tk, u + 3, {})) IN IF r.st # "ok" THEN r
                           ELSE Ok(r.p, [Stmt("execute", <<name, label, None>>) EXCEPT !.ins = r.v])
            ELSE No

One(tk, i) ==
    CASE tk[i].label = "_help" -> HelpStmt(tk, i + 1)
      [] tk[i].label = "_exit" -> Ok(i + 1, Stmt("exit", <<>>))
      [] tk[i].label = "_print" -> PrintStmt(tk, i + 1)
      [] tk[i].label = "_create" -> IF LabelAt(tk, i + 1) = "_dataset" THEN CreateDataset(tk, i + 2)
                                    ELSE IF LabelAt(tk, i + 1) = "_task" THEN CreateTask(tk, i + 2) ELSE No
      [] tk[i].label = "_execute" -> Execute(tk, i + 1)
      [] OTHER -> No
RECURSIVE Block(_, _, _)
Block(tk, i, acc) == IF i > Len(tk) THEN Ok(i, acc)
                     ELSE LET r == TLCEval(One(tk, i)) IN IF r.st # "ok" THEN r ELSE Block(tk, r.p, Append(acc, r.v))
\* a script: [st, v] with v the statements in order
Script(text) == LET x == TLCEval(Lex(text)) IN IF ~x.ok THEN No ELSE Block(x.toks, 1, <<>>)
=============================================================================
