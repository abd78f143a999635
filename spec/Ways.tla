-------------------------------- MODULE Ways --------------------------------
(* What the options of the compiler and the way of asking mean for a source:   *)
(* a sequence of options and a sequence of parts of the source that show their *)
(* effects - definitions, search of headers, standard, target, layouts - and   *)
(* the text itself (ends of lines, encoding). For every way to ask for the     *)
(* translation (a string, a file, a list of files, the command on files or on  *)
(* its standard input) the specification gives what is refused, and else what  *)
(* the module has. The check of C15 replays the sources by all ways.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS MaxOpts, MaxParts, Random, Kinds

VARIABLES opts, parts, cwd, text, includes, tflag, phase
vars == <<opts, parts, cwd, text, includes, tflag, phase>>

Entries == {"string", "file", "list", "command", "stdin"}
Names == {"V1", "V2"}
Headers == {"h1", "h2", "h3"}
Dirs == {"d0", "d1", "d2", "d3", "d9"}
DirNumber(d) == CASE d = "d0" -> 1 [] d = "d1" -> 2 [] d = "d2" -> 3 [] d = "d3" -> 4 [] d = "d9" -> 5 [] OTHER -> 0
(* the headers of each directory; every h1 includes "h2" *)
Has(d) == CASE d = "d0" -> {"h1", "h3"} [] d = "d1" -> {"h1"} [] d = "d2" -> {"h1", "h2"} [] d = "d3" -> {"h2", "h3"} [] OTHER -> {}
Standards == {"c90", "c99", "c11", "c17", "gnu89", "gnu99", "gnu11", "gnu17", "iso9899:199409"}
Targets == {"x86_64-linux", "i386-linux", "x86_64-pc-windows-gnu", "armv7-linux-gnueabi"}

Some(S) == IF Random THEN IF S = {} THEN {} ELSE RandomSubset(1, S) ELSE S
Init ==
  /\ opts = <<>> /\ parts = <<>> /\ phase = "options" /\ tflag = "none"
  /\ cwd = "d9" /\ includes = FALSE
  /\ text = [eol |-> "lf", last |-> TRUE, bom |-> FALSE, comment |-> "none", file |-> "plain"]

-----------------------------------------------------------------------------
(* Options                                                                     *)
Used == {opts[i].dir : i \in {j \in 1..Len(opts) : opts[j].o \in {"I", "isystem", "iquote"}}}
OptionsOf(k) ==
  CASE k = "D" -> {[o |-> "D", name |-> n, val |-> v] : n \in Names, v \in {"", "1", "7", "none"}}
    [] k = "U" -> {[o |-> "U", name |-> n] : n \in Names}
    [] k = "Dfun" -> {[o |-> "Dfun", factor |-> f] : f \in {2, 3}}
    [] k = "path" -> {[o |-> p, dir |-> d, rel |-> r] : p \in {"I", "isystem", "iquote"}, d \in Dirs \ (Used \cup {"d9"}), r \in {TRUE, FALSE}}
    [] k = "forced" -> {[o |-> "include"]}
    [] k = "std" -> {[o |-> "std", v |-> s] : s \in Standards}
    [] k = "target" -> {[o |-> "target", v |-> t] : t \in Targets}
    [] k = "enums" -> {[o |-> "enums", v |-> s] : s \in {"short", "no-short"}}
    [] k = "char" -> {[o |-> "char", v |-> s] : s \in {"signed", "unsigned"}}
    [] k = "wchar" -> {[o |-> "wchar", v |-> s] : s \in {"short", "no-short"}}
    [] k = "pack" -> {[o |-> "pack", v |-> s] : s \in {1, 2, 4}}
    [] k = "werror" -> {[o |-> "werror", v |-> s] : s \in {"error", "no-error"}}
AllKinds == {"D", "U", "Dfun", "path", "forced", "std", "target", "enums", "char", "wchar", "pack", "werror"}
PathOf(o) == LET s == SelectSeq(opts, LAMBDA x : x.o = o) IN [i \in 1..Len(s) |-> s[i].dir]
Angled == PathOf("I") \o PathOf("isystem")
AddOption ==
  /\ phase \in {"options", "parts"} /\ Len(opts) < MaxOpts
  /\ \E k \in IF Random /\ RandomSubset(1, 1..4) = {1} THEN {"path"} ELSE Some(Kinds) : \E x \in Some(OptionsOf(k)) : opts' = Append(opts, x)
  /\ UNCHANGED <<parts, cwd, text, includes, tflag, phase>>

(* Of the options of a kind, the last one counts                               *)
LastOf(k, d) == LET I == {i \in 1..Len(opts) : opts[i].o = k}
                IN IF I = {} THEN d ELSE opts[CHOOSE i \in I : \A j \in I : j <= i].v
Defined(n) ==
  LET I == {i \in 1..Len(opts) : opts[i].o \in {"D", "U"} /\ opts[i].name = n}
      l == opts[CHOOSE i \in I : \A j \in I : j <= i]
  IN IF I = {} THEN "undefined" ELSE IF l.o = "U" THEN "undefined" ELSE l.val
Factor == LET I == {i \in 1..Len(opts) : opts[i].o = "Dfun"}
          IN IF I = {} THEN 1 ELSE opts[CHOOSE i \in I : \A j \in I : j <= i].factor
(* -t comes before the others *)
Target == LastOf("target", IF tflag = "none" THEN "x86_64-linux" ELSE tflag)
(* two options make of a name two things: the second one is warned of *)
OptionWarns ==
  \/ \E i, j \in 1..Len(opts) : i < j /\ opts[i].o = "D" /\ opts[j].o = "D" /\ opts[i].name = opts[j].name /\ opts[i].val # opts[j].val
       /\ ~ {opts[i].val, opts[j].val} \subseteq {"none", "1"}
       /\ ~ \E m \in (i + 1)..(j - 1) : opts[m].o \in {"U", "D"} /\ opts[m].name = opts[i].name
  \/ \E i, j \in 1..Len(opts) : i < j /\ opts[i].o = "Dfun" /\ opts[j].o = "Dfun" /\ opts[i].factor # opts[j].factor

StdVersion(s) == CASE s \in {"c90", "gnu89"} -> 0 [] s = "iso9899:199409" -> 199409 [] s \in {"c99", "gnu99"} -> 199901
                   [] s \in {"c11", "gnu11"} -> 201112 [] s \in {"c17", "gnu17"} -> 201710
Strict(s) == s \in {"c90", "c99", "c11", "c17", "iso9899:199409"}
Std == LastOf("std", "gnu17")
LongSize == IF Target = "x86_64-linux" THEN 8 ELSE 4
PointerSize == IF Target \in {"x86_64-linux", "x86_64-pc-windows-gnu"} THEN 8 ELSE 4
LLongAlign == IF Target = "i386-linux" THEN 4 ELSE 8
WcharSize == LET w == LastOf("wchar", "default")
             IN IF w = "short" THEN 2 ELSE IF w = "no-short" THEN 4 ELSE IF Target = "x86_64-pc-windows-gnu" THEN 2 ELSE 4
CharSigned == LET c == LastOf("char", "default") IN IF c = "default" THEN Target # "armv7-linux-gnueabi" ELSE c = "signed"
Pack == LastOf("pack", 16)
EnumSize == IF LastOf("enums", "no-short") = "short" THEN 1 ELSE 4
Min(a, b) == IF a < b THEN a ELSE b
Up(a, b) == ((a + b - 1) \div b) * b
(* struct { char c; T x; char d; }, T of a size and an alignment *)
SizeOf(size, align) == LET a == Min(align, Pack) IN Up(Up(1, a) + size + 1, a)

-----------------------------------------------------------------------------
(* Headers. The directory of the source is the current directory for a string, *)
(* and there is none for the standard input.                                   *)
SourceDir(e) == IF e = "string" THEN cwd ELSE IF e = "stdin" THEN "nowhere" ELSE "d0"
Search(from, quoted) == (IF quoted THEN IF from = "nowhere" THEN PathOf("iquote") ELSE <<from>> \o PathOf("iquote") ELSE <<>>) \o Angled
First(h, path) == LET I == {i \in 1..Len(path) : h \in Has(path[i])}
                  IN IF I = {} THEN "missing" ELSE path[CHOOSE i \in I : \A j \in I : i <= j]
(* found: of each header read so far its directory; the guards are by name     *)
Read(found, h, from, quoted) ==
  LET d == First(h, Search(from, quoted)) IN
  IF d = "missing" THEN [found EXCEPT !["bad"] = "yes"]
  ELSE IF found[h] # "unread" THEN found
  ELSE LET f == [found EXCEPT ![h] = d] IN
       IF h # "h1" THEN f
       ELSE LET e == First("h2", Search(d, TRUE)) IN
            IF e = "missing" THEN [f EXCEPT !["bad"] = "yes"]
            ELSE IF f["h2"] # "unread" THEN f ELSE [f EXCEPT !["h2"] = e]
RECURSIVE Reading(_, _, _)
Reading(i, e, found) ==
  IF i > Len(parts) THEN found
  ELSE Reading(i + 1, e, IF parts[i].p = "inc" THEN Read(found, parts[i].h, SourceDir(e), parts[i].quoted) ELSE found)
Found(e) == Reading(1, e, [x \in Headers \cup {"bad"} |-> "unread"])

-----------------------------------------------------------------------------
(* The parts of the source                                                     *)
PartKinds == {"def", "fun", "std", "strict", "long", "pointer", "llong", "enum", "char", "wchar", "inc", "use", "warn", "forced", "plain"}
PartsOf(k) ==
  CASE k = "def" -> {[p |-> "def", name |-> n] : n \in Names}
    [] k = "inc" -> {[p |-> "inc", h |-> h, quoted |-> q] : h \in Headers, q \in {TRUE, FALSE}}
    [] k = "use" -> {[p |-> "use", h |-> h] : h \in {g \in Headers : \E i \in 1..Len(parts) : parts[i].p = "inc" /\ (parts[i].h = g \/ (g = "h2" /\ parts[i].h = "h1"))}}
    [] OTHER -> {[p |-> k]}
AddPart ==
  /\ phase \in {"options", "parts"} /\ Len(parts) < MaxParts
  /\ \E k \in IF Random /\ Len(Angled) > 0 /\ RandomSubset(1, 1..2) = {1}
              THEN IF \E i \in 1..Len(parts) : parts[i].p = "inc" THEN Some({"inc", "use"}) ELSE {"inc"}
              ELSE Some(PartKinds) : \E x \in Some(PartsOf(k)) : parts' = Append(parts, x)
  /\ phase' = "parts"
  /\ UNCHANGED <<opts, cwd, text, includes, tflag>>
Choose ==
  /\ phase \in {"options", "parts"}
  /\ IF Random THEN Len(parts) = MaxParts ELSE parts # <<>>
  /\ \E c \in IF Random THEN Some({"d0", "d1", "d9"}) ELSE {"d9"}, i \in IF Random THEN Some({TRUE, FALSE}) ELSE {FALSE},
        t \in IF Random THEN Some({[eol |-> a, last |-> b, bom |-> d, comment |-> x, file |-> f] :
                                    a \in {"lf", "crlf"}, b \in {TRUE, FALSE}, d \in {TRUE, FALSE}, x \in {"none", "ascii", "utf8", "latin1"},
                                    f \in {"plain", "header", "space", "accent", "relative"}})
              ELSE {text},
        v \in IF Random THEN IF RandomSubset(1, 1..3) = {1} THEN Some(Targets) ELSE {"none"} ELSE {"none"} :
       cwd' = c /\ includes' = i /\ text' = t /\ tflag' = v
  /\ phase' = "done"
  /\ UNCHANGED <<opts, parts>>
End == phase \in {"done", "end"} /\ phase' = "end" /\ UNCHANGED <<opts, parts, cwd, text, includes, tflag>>
Next == AddOption \/ AddPart \/ Choose \/ End
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What comes of it                                                            *)
(* in the file of the forced inclusion and in headers, only what is needed is  *)
(* translated, but with -i, and for a string and a single file                 *)
All(e) == includes \/ e \in {"string", "file"}
HasForced == \E i \in 1..Len(opts) : opts[i].o = "include"
Warns == OptionWarns \/ \E i \in 1..Len(parts) : parts[i].p = "warn"
Refused(e) == (Found(e)["bad"] = "yes") \/ (LastOf("werror", "no-error") = "error" /\ Warns)
Const(i, v) == <<[kind |-> "const", part |-> i, name |-> "", val |-> v]>>
Size(i, v) == <<[kind |-> "size", part |-> i, name |-> "", val |-> v]>>
B2I(b) == IF b THEN 1 ELSE 0
OfPart(i, e) ==
  LET p == parts[i] IN
  CASE p.p = "def" -> Const(i, CASE Defined(p.name) = "undefined" -> -1 [] Defined(p.name) = "" -> 0 [] Defined(p.name) \in {"none", "1"} -> 1 [] OTHER -> 7)
    [] p.p = "fun" -> Const(i, 5 * Factor)
    [] p.p = "std" -> Const(i, StdVersion(Std))
    [] p.p = "strict" -> Const(i, B2I(Strict(Std)))
    [] p.p = "long" -> Size(i, SizeOf(LongSize, LongSize))
    [] p.p = "pointer" -> Size(i, SizeOf(PointerSize, PointerSize))
    [] p.p = "llong" -> Size(i, SizeOf(8, LLongAlign))
    [] p.p = "enum" -> Size(i, SizeOf(EnumSize, EnumSize))
    [] p.p = "char" -> Const(i, B2I(CharSigned))
    [] p.p = "wchar" -> Const(i, WcharSize)
    [] p.p = "use" -> Size(i, 4 * DirNumber(Found(e)[p.h]) + 4)
    [] p.p = "forced" -> IF HasForced THEN Size(i, 12) ELSE Size(i, 4)
    [] p.p = "plain" -> Size(i, 4)
    [] OTHER -> <<>>
Uses(h) == \E i \in 1..Len(parts) : parts[i].p = "use" /\ parts[i].h = h
OfHeader(h, e) ==
  LET d == Found(e)[h] IN
  IF d = "unread" THEN <<>>
  ELSE <<[kind |-> IF All(e) THEN "const" ELSE "absent", part |-> 0, name |-> h \o "_from", val |-> IF All(e) THEN DirNumber(d) ELSE 0]>>
       \o IF All(e) \/ Uses(h) THEN <<[kind |-> "size", part |-> 0, name |-> "struct_S_" \o h, val |-> 4 * DirNumber(d)]>>
          ELSE <<[kind |-> "absent", part |-> 0, name |-> "struct_S_" \o h, val |-> 0]>>
OfForced(e) ==
  IF ~HasForced THEN <<>>
  ELSE <<[kind |-> IF All(e) THEN "const" ELSE "absent", part |-> 0, name |-> "forced_value", val |-> IF All(e) THEN 99 ELSE 0]>>
RECURSIVE Gather(_, _)
Gather(i, e) == IF i > Len(parts) THEN <<>> ELSE OfPart(i, e) \o Gather(i + 1, e)
Expect(e) ==
  IF Refused(e) THEN [entry |-> e, refused |-> TRUE, has |-> <<>>]
  ELSE [entry |-> e, refused |-> FALSE, has |-> Gather(1, e) \o OfHeader("h1", e) \o OfHeader("h2", e) \o OfHeader("h3", e) \o OfForced(e)]

-----------------------------------------------------------------------------
(* A file asked for in any way is the same                                     *)
SameOf(a, b) == Refused(a) = Refused(b) /\ (~Refused(a) => Gather(1, a) = Gather(1, b))
FilesAgree == SameOf("file", "list") /\ SameOf("list", "command")
(* the others differ from them only by what the directory of the source has    *)
WithoutLocal(e) ==
  (\A i \in 1..Len(parts) : parts[i].p = "inc" =>
     ~parts[i].quoted \/ parts[i].h \notin Has("d0")) => SameOf(e, "file")
OthersAgree == WithoutLocal("stdin") /\ (cwd \in {"d0", "d9"} => WithoutLocal("string")) /\ (cwd = "d0" => SameOf("string", "file"))
(* what only -i shows has nothing to do with what is there without it          *)
VisibleOK == \A e \in Entries : \A i \in 1..Len(Expect(e).has) : Expect(e).has[i].kind # "absent" \/ ~All(e)
(* an option changes only what it is about                                     *)
About(k, p) ==
  CASE k \in {"D", "U"} -> p.p = "def" [] k = "Dfun" -> p.p = "fun" [] k \in {"I", "isystem", "iquote"} -> p.p = "use" [] k = "include" -> p.p = "forced"
    [] k = "std" -> p.p \in {"std", "strict"} [] k = "target" -> p.p \in {"long", "pointer", "llong", "char", "wchar"}
    [] k = "enums" -> p.p = "enum" [] k = "char" -> p.p = "char" [] k = "wchar" -> p.p = "wchar"
    [] k = "pack" -> p.p \in {"long", "pointer", "llong", "enum"} [] OTHER -> FALSE
OptionsApart ==
  [][Len(opts') > Len(opts) =>
       \A i \in 1..Len(parts) : ~About(opts'[Len(opts')].o, parts[i]) => \A e \in Entries : OfPart(i, e)' = OfPart(i, e)]_vars
Emit == phase = "done" =>
  PrintT("CASE " \o ToJson([opts |-> opts, parts |-> parts, cwd |-> cwd, text |-> text, includes |-> includes, tflag |-> tflag,
                            expect |-> <<Expect("string"), Expect("file"), Expect("list"), Expect("command"), Expect("stdin")>>]))
=============================================================================
