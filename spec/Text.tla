-------------------------------- MODULE Text --------------------------------
(* The Prometheus text format (version 0.0.4) as an automaton over code points: Parse reads a text as a Prometheus *)
(* server does and gives the families it announces.  A text that is not well-formed gives a family of kind "bad". *)
(*                                                                                                                *)
(* The state of the automaton: q the control state, buf the characters of the token being read, name/labs/ln/val  *)
(* the parts of the current line, items the lines read so far.                                                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

LF == 10
SP == 32
QUOTE == 34
HASH == 35
COMMA == 44
EQUALS == 61
BSLASH == 92
OPEN == 123
CLOSE == 125
Blank(c) == c = SP \/ c = 9

NameStart(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = 95 \/ c = 58
LabelStart(c) == NameStart(c) /\ c # 58
Digit(c) == c >= 48 /\ c <= 57

HELP == <<72, 69, 76, 80>>
TYPE == <<84, 89, 80, 69>>

Start == [q |-> "bol", buf |-> <<>>, kw |-> "", name |-> <<>>, labs |-> <<>>, ln |-> <<>>, val |-> <<>>, items |-> <<>>]
Bad(s) == [s EXCEPT !.q = "bad"]
To(s, q) == [s EXCEPT !.q = q]
Push(s, c) == [s EXCEPT !.buf = Append(@, c)]
Line(s, item) == [s EXCEPT !.q = "bol", !.items = Append(@, item), !.buf = <<>>, !.labs = <<>>]
Sample(s, ts) == Line(s, [t |-> "sample", name |-> s.name, labs |-> s.labs, v |-> s.val, ts |-> ts, text |-> <<>>])
Item(t, s, text) == [t |-> t, name |-> s.name, labs |-> <<>>, v |-> <<>>, ts |-> <<>>, text |-> text]

Next(s, c) ==
  CASE s.q = "bad" -> s
    \* ---- the beginning of a line
    [] s.q = "bol" ->
        (CASE c = LF \/ Blank(c) -> s
           [] c = HASH -> To(s, "hash")
           [] NameStart(c) -> [s EXCEPT !.q = "name", !.buf = <<c>>]
           [] OTHER -> Bad(s))
    \* ---- lines that begin with #
    [] s.q = "hash" -> IF c = LF THEN To(s, "bol") ELSE IF Blank(c) THEN s ELSE [s EXCEPT !.q = "kw", !.buf = <<c>>]
    [] s.q = "kw" ->
        (CASE Blank(c) -> [s EXCEPT !.q = IF s.buf = HELP \/ s.buf = TYPE THEN "mname0" ELSE "comment",
                                    !.kw = IF s.buf = HELP THEN "help" ELSE "type", !.buf = <<>>]
           [] c = LF -> To(s, "bol")
           [] OTHER -> Push(s, c))
    [] s.q = "comment" -> IF c = LF THEN To(s, "bol") ELSE s
    [] s.q = "mname0" -> IF Blank(c) THEN s ELSE IF NameStart(c) THEN [s EXCEPT !.q = "mname", !.buf = <<c>>] ELSE Bad(s)
    [] s.q = "mname" ->
        (CASE NameStart(c) \/ Digit(c) -> Push(s, c)
           [] Blank(c) -> [s EXCEPT !.q = s.kw, !.name = s.buf, !.buf = <<>>]
           [] c = LF /\ s.kw = "help" -> Line(s, [Item("help", s, <<>>) EXCEPT !.name = s.buf])
           [] OTHER -> Bad(s))
    [] s.q = "help" ->
        (CASE c = LF -> Line(s, Item("help", s, s.buf))
           [] c = BSLASH -> To(s, "help-esc")
           [] OTHER -> Push(s, c))
    [] s.q = "help-esc" ->
        (CASE c = BSLASH -> Push(To(s, "help"), BSLASH)
           [] c = 110 -> Push(To(s, "help"), LF)
           [] OTHER -> Bad(s))
    [] s.q = "type" ->
        (CASE c = LF -> Line(s, Item("type", s, s.buf))
           [] Blank(c) -> IF s.buf = <<>> THEN s ELSE Bad(s)
           [] OTHER -> Push(s, c))
    \* ---- sample lines
    [] s.q = "name" ->
        (CASE NameStart(c) \/ Digit(c) -> Push(s, c)
           [] Blank(c) -> [s EXCEPT !.q = "aname", !.name = s.buf, !.buf = <<>>]
           [] c = OPEN -> [s EXCEPT !.q = "label0", !.name = s.buf, !.buf = <<>>]
           [] OTHER -> Bad(s))
    [] s.q = "aname" ->
        (CASE Blank(c) -> s
           [] c = OPEN -> To(s, "label0")
           [] c = LF -> Bad(s)
           [] OTHER -> [s EXCEPT !.q = "value", !.buf = <<c>>])
    [] s.q = "label0" ->
        (CASE Blank(c) -> s
           [] c = CLOSE -> To(s, "value0")
           [] LabelStart(c) -> [s EXCEPT !.q = "label", !.buf = <<c>>]
           [] OTHER -> Bad(s))
    [] s.q = "label" ->
        (CASE LabelStart(c) \/ Digit(c) -> Push(s, c)
           [] Blank(c) -> [s EXCEPT !.q = "equals", !.ln = s.buf]
           [] c = EQUALS -> [s EXCEPT !.q = "quote", !.ln = s.buf]
           [] OTHER -> Bad(s))
    [] s.q = "equals" -> IF Blank(c) THEN s ELSE IF c = EQUALS THEN To(s, "quote") ELSE Bad(s)
    [] s.q = "quote" -> IF Blank(c) THEN s ELSE IF c = QUOTE THEN [s EXCEPT !.q = "lvalue", !.buf = <<>>] ELSE Bad(s)
    [] s.q = "lvalue" ->
        (CASE c = QUOTE -> [s EXCEPT !.q = "alabel", !.labs = Append(@, <<s.ln, s.buf>>), !.buf = <<>>]
           [] c = BSLASH -> To(s, "lvalue-esc")
           [] c = LF -> Bad(s)
           [] OTHER -> Push(s, c))
    [] s.q = "lvalue-esc" ->
        (CASE c = BSLASH \/ c = QUOTE -> Push(To(s, "lvalue"), c)
           [] c = 110 -> Push(To(s, "lvalue"), LF)
           [] OTHER -> Bad(s))
    [] s.q = "alabel" ->
        (CASE Blank(c) -> s
           [] c = COMMA -> To(s, "label0")
           [] c = CLOSE -> To(s, "value0")
           [] OTHER -> Bad(s))
    [] s.q = "value0" -> IF Blank(c) THEN s ELSE IF c = LF THEN Bad(s) ELSE [s EXCEPT !.q = "value", !.buf = <<c>>]
    [] s.q = "value" ->
        (CASE c = LF -> Sample([s EXCEPT !.val = s.buf], <<>>)
           [] Blank(c) -> [s EXCEPT !.q = "ts0", !.val = s.buf, !.buf = <<>>]
           [] OTHER -> Push(s, c))
    [] s.q = "ts0" -> IF Blank(c) THEN s ELSE IF c = LF THEN Sample(s, <<>>) ELSE [s EXCEPT !.q = "ts", !.buf = <<c>>]
    [] s.q = "ts" -> IF c = LF THEN Sample(s, s.buf) ELSE IF Blank(c) THEN Bad(s) ELSE Push(s, c)

Items(text) == LET s == FoldLeft(Next, Start, text)
               IN IF s.q = "bol" THEN s.items ELSE Append(s.items, Item("bad", s, <<>>))

\* The lines grouped into families: a HELP line opens one, and so does a TYPE line unless it completes the one just
\* opened by a HELP line of the same name.
Family(name, help, kind) == [name |-> name, help |-> help, kind |-> kind, samples |-> <<>>]
Group(fams, it) ==
  LET n == Len(fams)
  IN CASE it.t = "help" -> Append(fams, Family(it.name, <<it.text>>, <<>>))
       [] it.t = "type" -> IF n > 0 /\ fams[n].name = it.name /\ fams[n].kind = <<>> THEN [fams EXCEPT ![n].kind = it.text]
                           ELSE Append(fams, Family(it.name, <<>>, it.text))
       [] it.t = "sample" /\ n > 0 /\ fams[n].kind # <<>> -> [fams EXCEPT ![n].samples = Append(@, it)]
       [] OTHER -> Append(fams, Family(<<>>, <<>>, <<63>>))
Parse(text) == FoldLeft(Group, <<>>, Items(text))

-----------------------------------------------------------------------------
(* The other direction, for the model: how a character may be written.                                            *)
EscapeLabel(w) == FoldLeft(LAMBDA acc, c : acc \o (CASE c = BSLASH -> <<BSLASH, BSLASH>> [] c = QUOTE -> <<BSLASH, QUOTE>>
                                                     [] c = LF -> <<BSLASH, 110>> [] OTHER -> <<c>>), <<>>, w)
EscapeHelp(w) == FoldLeft(LAMBDA acc, c : acc \o (CASE c = BSLASH -> <<BSLASH, BSLASH>> [] c = LF -> <<BSLASH, 110>> [] OTHER -> <<c>>), <<>>, w)
=============================================================================
