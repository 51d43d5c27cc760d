-------------------------------- MODULE SkelGen --------------------------------
(* The scripts with which the real skeleton generator is run: every history of *)
(* at most L steps over two packages (named by the harness), and every package *)
(* name of one or two pieces.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS L, Two
VARIABLE s
Singles == {"internal", "testdata", "context", "fmt", "log", "flag", "runtime", "stagedpipe", "sm", "ctx", "err", "done", "out", "req", "nil",
            "int", "error", "init", "true", "len", "string", "any", "func", "import", "C", "Z9", "unsafe", "builtin", "iota", "mypipeline", "parallelism", "xsm",
            "rg", "pipelineErr", "reqCtx", "reqCancel", "i", "_x", "d", "a"}
Pieces == {"data", "Data", "main", "test", "x", "windows", "amd64", "type", "pipeline", "1", "v2", "go", "sm"}
Seps == {"", "-", "_", ".", "+", "~"}
Names == Singles \cup Pieces
         \cup (IF Two THEN { p \o c \o q : p \in Pieces, c \in Seps \ {"~"}, q \in Pieces } \ {"main.go"} ELSE {})
         \cup (IF Two THEN { p \o "~" \o q : p \in Pieces, q \in Pieces \ {"1"} } ELSE {})
\* one step: a call, two concurrent calls, or something that is there already
Steps == [op : {"init"}, b : {"A", "B", ""}, m : BOOLEAN]
         \cup [op : {"pair"}, b : {"A"}, m : BOOLEAN, b2 : {"A", "B"}, m2 : {FALSE}]
         \cup [op : {"pair"}, b : {"B"}, m : {FALSE}, b2 : {"A"}, m2 : {TRUE}]
         \cup [op : {"dir", "file"}, b : {"A", "B"}]
Main(t) == t.op \in {"init", "pair"} /\ (t.m \/ (t.op = "pair" /\ t.m2))
Valid(h) == /\ Cardinality({ x \in DOMAIN h : h[x].op \in {"init"} /\ h[x].b = "" }) <= 1
            /\ Cardinality({ x \in DOMAIN h : Main(h[x]) }) <= 1                        \* one main file
            /\ \A x, y \in DOMAIN h : x < y /\ h[y].op \in {"dir", "file"} => (h[x].op \in {"dir", "file"} /\ h[x].b # h[y].b)
            /\ \E x \in DOMAIN h : h[x].op \notin {"dir", "file"}
            /\ \A x \in DOMAIN h : h[x].op = "init" /\ h[x].b = "B" => \E y \in DOMAIN h : (y # x /\ h[y].op # "init") \/ (y < x /\ h[y].b = "A")
Histories == { h \in UNION { [1..n -> Steps] : n \in 1..L } : Valid(h) }
Scripts == { [name |-> "", ops |-> h] : h \in Histories }
           \cup { [name |-> n, ops |-> <<[op |-> "init", b |-> "A", m |-> m]>>] : n \in Names, m \in {TRUE} }
           \cup { [name |-> n, ops |-> <<[op |-> "init", b |-> "A", m |-> m]>>] : n \in Pieces, m \in {FALSE} }
Init == s \in Scripts /\ PrintT("SCRIPT|" \o ToJson(s))
Next == UNCHANGED s
=============================================================================
