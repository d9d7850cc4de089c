---- MODULE SampleTrace_TTrace_1795072799 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, SampleTrace

_expression ==
    LET SampleTrace_TEExpression == INSTANCE SampleTrace_TEExpression
    IN SampleTrace_TEExpression!expression
----

_trace ==
    LET SampleTrace_TETrace == INSTANCE SampleTrace_TETrace
    IN SampleTrace_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        at = (1)
        /\
        x = ([bad |-> TRUE])
        /\
        i = (290)
    )
----

_init ==
    /\ at = _TETrace[1].at
    /\ i = _TETrace[1].i
    /\ x = _TETrace[1].x
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ at  = _TETrace[i].at
        /\ at' = _TETrace[j].at
        /\ i  = _TETrace[i].i
        /\ i' = _TETrace[j].i
        /\ x  = _TETrace[i].x
        /\ x' = _TETrace[j].x

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("SampleTrace_TTrace_1795072799.json", _TETrace)

=============================================================================

 Note that you can extract this module `SampleTrace_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `SampleTrace_TEExpression.tla` file takes precedence 
  over the module `SampleTrace_TEExpression` below).

---- MODULE SampleTrace_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, SampleTrace

expression == 
    [
        \* To hide variables of the `SampleTrace` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        at |-> at
        ,i |-> i
        ,x |-> x
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_atUnchanged |-> at = at'
        
        \* Format the `at` variable as Json value.
        \* ,_atJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(at)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_atModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].at # _TETrace[s-1].at
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE SampleTrace_TETrace ----
\*EXTENDS IOUtils, TLC, SampleTrace
\*
\*trace == IODeserialize("SampleTrace_TTrace_1795072799.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE SampleTrace_TETrace ----
EXTENDS TLC, SampleTrace

trace == 
    <<
    ([at |-> 1,x |-> [s |-> [n |-> 0, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 0, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<>>, sum2 |-> <<>>, evals |-> 0, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 0]),
    ([at |-> 1,x |-> [s |-> [n |-> 0, rlock |-> 1, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 0, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<>>, sum2 |-> <<>>, evals |-> 0, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 1]),
    ([at |-> 1,x |-> [s |-> [n |-> 1, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5049, 42>>, sum2 |-> <<2401, 6665, 1806>>, evals |-> 4096, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 2]),
    ([at |-> 1,x |-> [s |-> [n |-> 1, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5049, 42>>, sum2 |-> <<2401, 6665, 1806>>, evals |-> 4096, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 3]),
    ([at |-> 1,x |-> [s |-> [n |-> 1, rlock |-> 4, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5049, 42>>, sum2 |-> <<2401, 6665, 1806>>, evals |-> 4096, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 4]),
    ([at |-> 1,x |-> [s |-> [n |-> 2, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7381, 85>>, sum2 |-> <<625, 7761, 3675>>, evals |-> 8192, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 5]),
    ([at |-> 1,x |-> [s |-> [n |-> 2, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7381, 85>>, sum2 |-> <<625, 7761, 3675>>, evals |-> 8192, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 6]),
    ([at |-> 1,x |-> [s |-> [n |-> 2, rlock |-> 2, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7381, 85>>, sum2 |-> <<625, 7761, 3675>>, evals |-> 8192, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 7]),
    ([at |-> 1,x |-> [s |-> [n |-> 3, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2724, 129>>, sum2 |-> <<8274, 113, 5571>>, evals |-> 12288, token |-> FALSE, pc |-> <<"sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 8]),
    ([at |-> 1,x |-> [s |-> [n |-> 3, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2724, 129>>, sum2 |-> <<8274, 113, 5571>>, evals |-> 12288, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 9]),
    ([at |-> 1,x |-> [s |-> [n |-> 3, rlock |-> 1, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2724, 129>>, sum2 |-> <<8274, 113, 5571>>, evals |-> 12288, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 10]),
    ([at |-> 1,x |-> [s |-> [n |-> 4, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6562, 172>>, sum2 |-> <<8518, 1654, 7453>>, evals |-> 16384, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 11]),
    ([at |-> 1,x |-> [s |-> [n |-> 4, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6562, 172>>, sum2 |-> <<8518, 1654, 7453>>, evals |-> 16384, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 12]),
    ([at |-> 1,x |-> [s |-> [n |-> 4, rlock |-> 5, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6562, 172>>, sum2 |-> <<8518, 1654, 7453>>, evals |-> 16384, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 13]),
    ([at |-> 1,x |-> [s |-> [n |-> 5, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6463, 216>>, sum2 |-> <<8319, 2943, 9388>>, evals |-> 20480, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 14]),
    ([at |-> 1,x |-> [s |-> [n |-> 5, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6463, 216>>, sum2 |-> <<8319, 2943, 9388>>, evals |-> 20480, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 15]),
    ([at |-> 1,x |-> [s |-> [n |-> 5, rlock |-> 1, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6463, 216>>, sum2 |-> <<8319, 2943, 9388>>, evals |-> 20480, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 16]),
    ([at |-> 1,x |-> [s |-> [n |-> 6, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8541, 258>>, sum2 |-> <<6403, 7927, 1169, 1>>, evals |-> 24576, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 17]),
    ([at |-> 1,x |-> [s |-> [n |-> 6, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8541, 258>>, sum2 |-> <<6403, 7927, 1169, 1>>, evals |-> 24576, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 18]),
    ([at |-> 1,x |-> [s |-> [n |-> 6, rlock |-> 2, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8541, 258>>, sum2 |-> <<6403, 7927, 1169, 1>>, evals |-> 24576, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 19]),
    ([at |-> 1,x |-> [s |-> [n |-> 7, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6397, 301>>, sum2 |-> <<3139, 4003, 3000, 1>>, evals |-> 28672, token |-> FALSE, pc |-> <<"sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 20]),
    ([at |-> 1,x |-> [s |-> [n |-> 7, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6397, 301>>, sum2 |-> <<3139, 4003, 3000, 1>>, evals |-> 28672, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 21]),
    ([at |-> 1,x |-> [s |-> [n |-> 7, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6397, 301>>, sum2 |-> <<3139, 4003, 3000, 1>>, evals |-> 28672, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 22]),
    ([at |-> 1,x |-> [s |-> [n |-> 8, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3755, 343>>, sum2 |-> <<3303, 2773, 4742, 1>>, evals |-> 32768, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 23]),
    ([at |-> 1,x |-> [s |-> [n |-> 8, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3755, 343>>, sum2 |-> <<3303, 2773, 4742, 1>>, evals |-> 32768, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 24]),
    ([at |-> 1,x |-> [s |-> [n |-> 8, rlock |-> 3, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3755, 343>>, sum2 |-> <<3303, 2773, 4742, 1>>, evals |-> 32768, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 25]),
    ([at |-> 1,x |-> [s |-> [n |-> 9, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1703, 387>>, sum2 |-> <<4007, 2618, 6660, 1>>, evals |-> 36864, token |-> FALSE, pc |-> <<"sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 26]),
    ([at |-> 1,x |-> [s |-> [n |-> 9, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1703, 387>>, sum2 |-> <<4007, 2618, 6660, 1>>, evals |-> 36864, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 27]),
    ([at |-> 1,x |-> [s |-> [n |-> 9, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1703, 387>>, sum2 |-> <<4007, 2618, 6660, 1>>, evals |-> 36864, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 28]),
    ([at |-> 1,x |-> [s |-> [n |-> 10, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<892, 429>>, sum2 |-> <<1728, 4560, 8417, 1>>, evals |-> 40960, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 29]),
    ([at |-> 1,x |-> [s |-> [n |-> 10, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<892, 429>>, sum2 |-> <<1728, 4560, 8417, 1>>, evals |-> 40960, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 30]),
    ([at |-> 1,x |-> [s |-> [n |-> 10, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<892, 429>>, sum2 |-> <<1728, 4560, 8417, 1>>, evals |-> 40960, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 31]),
    ([at |-> 1,x |-> [s |-> [n |-> 11, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9399, 471>>, sum2 |-> <<777, 6385, 253, 2>>, evals |-> 45056, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 32]),
    ([at |-> 1,x |-> [s |-> [n |-> 11, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9399, 471>>, sum2 |-> <<777, 6385, 253, 2>>, evals |-> 45056, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 33]),
    ([at |-> 1,x |-> [s |-> [n |-> 11, rlock |-> 4, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9399, 471>>, sum2 |-> <<777, 6385, 253, 2>>, evals |-> 45056, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 34]),
    ([at |-> 1,x |-> [s |-> [n |-> 12, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1609, 515>>, sum2 |-> <<4877, 6933, 2121, 2>>, evals |-> 49152, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 35]),
    ([at |-> 1,x |-> [s |-> [n |-> 12, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1609, 515>>, sum2 |-> <<4877, 6933, 2121, 2>>, evals |-> 49152, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 36]),
    ([at |-> 1,x |-> [s |-> [n |-> 12, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1609, 515>>, sum2 |-> <<4877, 6933, 2121, 2>>, evals |-> 49152, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 37]),
    ([at |-> 1,x |-> [s |-> [n |-> 13, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4796, 558>>, sum2 |-> <<1846, 2031, 3998, 2>>, evals |-> 53248, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 38]),
    ([at |-> 1,x |-> [s |-> [n |-> 13, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4796, 558>>, sum2 |-> <<1846, 2031, 3998, 2>>, evals |-> 53248, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 39]),
    ([at |-> 1,x |-> [s |-> [n |-> 13, rlock |-> 2, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4796, 558>>, sum2 |-> <<1846, 2031, 3998, 2>>, evals |-> 53248, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 40]),
    ([at |-> 1,x |-> [s |-> [n |-> 14, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7779, 601>>, sum2 |-> <<135, 9459, 5872, 2>>, evals |-> 57344, token |-> FALSE, pc |-> <<"sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 41]),
    ([at |-> 1,x |-> [s |-> [n |-> 14, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7779, 601>>, sum2 |-> <<135, 9459, 5872, 2>>, evals |-> 57344, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 42]),
    ([at |-> 1,x |-> [s |-> [n |-> 14, rlock |-> 5, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7779, 601>>, sum2 |-> <<135, 9459, 5872, 2>>, evals |-> 57344, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 43]),
    ([at |-> 1,x |-> [s |-> [n |-> 15, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<875, 644>>, sum2 |-> <<5351, 481, 7663, 2>>, evals |-> 61440, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 44]),
    ([at |-> 1,x |-> [s |-> [n |-> 15, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<875, 644>>, sum2 |-> <<5351, 481, 7663, 2>>, evals |-> 61440, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 45]),
    ([at |-> 1,x |-> [s |-> [n |-> 15, rlock |-> 4, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<875, 644>>, sum2 |-> <<5351, 481, 7663, 2>>, evals |-> 61440, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 46]),
    ([at |-> 1,x |-> [s |-> [n |-> 16, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1590, 688>>, sum2 |-> <<6576, 3452, 9605, 2>>, evals |-> 65536, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 47]),
    ([at |-> 1,x |-> [s |-> [n |-> 16, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1590, 688>>, sum2 |-> <<6576, 3452, 9605, 2>>, evals |-> 65536, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 48]),
    ([at |-> 1,x |-> [s |-> [n |-> 16, rlock |-> 1, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1590, 688>>, sum2 |-> <<6576, 3452, 9605, 2>>, evals |-> 65536, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 49]),
    ([at |-> 1,x |-> [s |-> [n |-> 17, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6191, 730>>, sum2 |-> <<5777, 2053, 1408, 3>>, evals |-> 69632, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 50]),
    ([at |-> 1,x |-> [s |-> [n |-> 17, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6191, 730>>, sum2 |-> <<5777, 2053, 1408, 3>>, evals |-> 69632, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 51]),
    ([at |-> 1,x |-> [s |-> [n |-> 17, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6191, 730>>, sum2 |-> <<5777, 2053, 1408, 3>>, evals |-> 69632, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 52]),
    ([at |-> 1,x |-> [s |-> [n |-> 18, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<680, 774>>, sum2 |-> <<6898, 122, 3296, 3>>, evals |-> 73728, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 53]),
    ([at |-> 1,x |-> [s |-> [n |-> 18, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<680, 774>>, sum2 |-> <<6898, 122, 3296, 3>>, evals |-> 73728, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 54]),
    ([at |-> 1,x |-> [s |-> [n |-> 18, rlock |-> 2, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<680, 774>>, sum2 |-> <<6898, 122, 3296, 3>>, evals |-> 73728, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 55]),
    ([at |-> 1,x |-> [s |-> [n |-> 19, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3338, 817>>, sum2 |-> <<1862, 9417, 5167, 3>>, evals |-> 77824, token |-> FALSE, pc |-> <<"sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 56]),
    ([at |-> 1,x |-> [s |-> [n |-> 19, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3338, 817>>, sum2 |-> <<1862, 9417, 5167, 3>>, evals |-> 77824, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 57]),
    ([at |-> 1,x |-> [s |-> [n |-> 19, rlock |-> 5, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3338, 817>>, sum2 |-> <<1862, 9417, 5167, 3>>, evals |-> 77824, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 58]),
    ([at |-> 1,x |-> [s |-> [n |-> 20, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6932, 860>>, sum2 |-> <<8698, 9792, 7047, 3>>, evals |-> 81920, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 59]),
    ([at |-> 1,x |-> [s |-> [n |-> 20, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6932, 860>>, sum2 |-> <<8698, 9792, 7047, 3>>, evals |-> 81920, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 60]),
    ([at |-> 1,x |-> [s |-> [n |-> 20, rlock |-> 5, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6932, 860>>, sum2 |-> <<8698, 9792, 7047, 3>>, evals |-> 81920, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 61]),
    ([at |-> 1,x |-> [s |-> [n |-> 21, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8501, 904>>, sum2 |-> <<459, 8111, 8997, 3>>, evals |-> 86016, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 62]),
    ([at |-> 1,x |-> [s |-> [n |-> 21, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8501, 904>>, sum2 |-> <<459, 8111, 8997, 3>>, evals |-> 86016, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 63]),
    ([at |-> 1,x |-> [s |-> [n |-> 21, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8501, 904>>, sum2 |-> <<459, 8111, 8997, 3>>, evals |-> 86016, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 64]),
    ([at |-> 1,x |-> [s |-> [n |-> 22, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7018, 948>>, sum2 |-> <<9748, 7826, 920, 4>>, evals |-> 90112, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 65]),
    ([at |-> 1,x |-> [s |-> [n |-> 22, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7018, 948>>, sum2 |-> <<9748, 7826, 920, 4>>, evals |-> 90112, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 66]),
    ([at |-> 1,x |-> [s |-> [n |-> 22, rlock |-> 3, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7018, 948>>, sum2 |-> <<9748, 7826, 920, 4>>, evals |-> 90112, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 67]),
    ([at |-> 1,x |-> [s |-> [n |-> 23, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3867, 992>>, sum2 |-> <<8549, 1531, 2829, 4>>, evals |-> 94208, token |-> FALSE, pc |-> <<"sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 68]),
    ([at |-> 1,x |-> [s |-> [n |-> 23, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3867, 992>>, sum2 |-> <<8549, 1531, 2829, 4>>, evals |-> 94208, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 69]),
    ([at |-> 1,x |-> [s |-> [n |-> 23, rlock |-> 4, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3867, 992>>, sum2 |-> <<8549, 1531, 2829, 4>>, evals |-> 94208, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 70]),
    ([at |-> 1,x |-> [s |-> [n |-> 24, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1204, 1036>>, sum2 |-> <<118, 7897, 4741, 4>>, evals |-> 98304, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 71]),
    ([at |-> 1,x |-> [s |-> [n |-> 24, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1204, 1036>>, sum2 |-> <<118, 7897, 4741, 4>>, evals |-> 98304, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 72]),
    ([at |-> 1,x |-> [s |-> [n |-> 24, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1204, 1036>>, sum2 |-> <<118, 7897, 4741, 4>>, evals |-> 98304, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 73]),
    ([at |-> 1,x |-> [s |-> [n |-> 25, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4065, 1079>>, sum2 |-> <<5439, 4761, 6615, 4>>, evals |-> 102400, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 74]),
    ([at |-> 1,x |-> [s |-> [n |-> 25, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4065, 1079>>, sum2 |-> <<5439, 4761, 6615, 4>>, evals |-> 102400, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 75]),
    ([at |-> 1,x |-> [s |-> [n |-> 25, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4065, 1079>>, sum2 |-> <<5439, 4761, 6615, 4>>, evals |-> 102400, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 76]),
    ([at |-> 1,x |-> [s |-> [n |-> 26, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5990, 1122>>, sum2 |-> <<1064, 682, 8481, 4>>, evals |-> 106496, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 77]),
    ([at |-> 1,x |-> [s |-> [n |-> 26, rlock |-> 5, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5990, 1122>>, sum2 |-> <<1064, 682, 8481, 4>>, evals |-> 106496, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 78]),
    ([at |-> 1,x |-> [s |-> [n |-> 27, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6532, 1165>>, sum2 |-> <<4828, 7323, 334, 5>>, evals |-> 110592, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "check", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 79]),
    ([at |-> 1,x |-> [s |-> [n |-> 27, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6532, 1165>>, sum2 |-> <<4828, 7323, 334, 5>>, evals |-> 110592, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 80]),
    ([at |-> 1,x |-> [s |-> [n |-> 27, rlock |-> 1, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6532, 1165>>, sum2 |-> <<4828, 7323, 334, 5>>, evals |-> 110592, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 81]),
    ([at |-> 1,x |-> [s |-> [n |-> 28, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8773, 1207>>, sum2 |-> <<6909, 6069, 2117, 5>>, evals |-> 114688, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 82]),
    ([at |-> 1,x |-> [s |-> [n |-> 28, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8773, 1207>>, sum2 |-> <<6909, 6069, 2117, 5>>, evals |-> 114688, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 83]),
    ([at |-> 1,x |-> [s |-> [n |-> 28, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8773, 1207>>, sum2 |-> <<6909, 6069, 2117, 5>>, evals |-> 114688, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 84]),
    ([at |-> 1,x |-> [s |-> [n |-> 28, rlock |-> 2, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8773, 1207>>, sum2 |-> <<6909, 6069, 2117, 5>>, evals |-> 114688, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 85]),
    ([at |-> 1,x |-> [s |-> [n |-> 29, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6019, 1250>>, sum2 |-> <<1425, 9984, 3942, 5>>, evals |-> 118784, token |-> FALSE, pc |-> <<"sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 86]),
    ([at |-> 1,x |-> [s |-> [n |-> 29, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6019, 1250>>, sum2 |-> <<1425, 9984, 3942, 5>>, evals |-> 118784, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 87]),
    ([at |-> 1,x |-> [s |-> [n |-> 29, rlock |-> 8, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6019, 1250>>, sum2 |-> <<1425, 9984, 3942, 5>>, evals |-> 118784, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 88]),
    ([at |-> 1,x |-> [s |-> [n |-> 30, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5920, 1294>>, sum2 |-> <<1226, 1273, 5878, 5>>, evals |-> 122880, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 89]),
    ([at |-> 1,x |-> [s |-> [n |-> 30, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5920, 1294>>, sum2 |-> <<1226, 1273, 5878, 5>>, evals |-> 122880, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 90]),
    ([at |-> 1,x |-> [s |-> [n |-> 30, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5920, 1294>>, sum2 |-> <<1226, 1273, 5878, 5>>, evals |-> 122880, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 91]),
    ([at |-> 1,x |-> [s |-> [n |-> 31, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<612, 1338>>, sum2 |-> <<6090, 6986, 7767, 5>>, evals |-> 126976, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 92]),
    ([at |-> 1,x |-> [s |-> [n |-> 31, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<612, 1338>>, sum2 |-> <<6090, 6986, 7767, 5>>, evals |-> 126976, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 93]),
    ([at |-> 1,x |-> [s |-> [n |-> 31, rlock |-> 4, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<612, 1338>>, sum2 |-> <<6090, 6986, 7767, 5>>, evals |-> 126976, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 94]),
    ([at |-> 1,x |-> [s |-> [n |-> 32, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1520, 1381>>, sum2 |-> <<554, 5157, 9624, 5>>, evals |-> 131072, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 95]),
    ([at |-> 1,x |-> [s |-> [n |-> 32, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1520, 1381>>, sum2 |-> <<554, 5157, 9624, 5>>, evals |-> 131072, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 96]),
    ([at |-> 1,x |-> [s |-> [n |-> 32, rlock |-> 8, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1520, 1381>>, sum2 |-> <<554, 5157, 9624, 5>>, evals |-> 131072, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 97]),
    ([at |-> 1,x |-> [s |-> [n |-> 33, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5958, 1423>>, sum2 |-> <<6398, 9918, 1425, 6>>, evals |-> 135168, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 98]),
    ([at |-> 1,x |-> [s |-> [n |-> 33, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5958, 1423>>, sum2 |-> <<6398, 9918, 1425, 6>>, evals |-> 135168, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 99]),
    ([at |-> 1,x |-> [s |-> [n |-> 33, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5958, 1423>>, sum2 |-> <<6398, 9918, 1425, 6>>, evals |-> 135168, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 100]),
    ([at |-> 1,x |-> [s |-> [n |-> 34, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4059, 1466>>, sum2 |-> <<2599, 6965, 3258, 6>>, evals |-> 139264, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 101]),
    ([at |-> 1,x |-> [s |-> [n |-> 34, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4059, 1466>>, sum2 |-> <<2599, 6965, 3258, 6>>, evals |-> 139264, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 102]),
    ([at |-> 1,x |-> [s |-> [n |-> 34, rlock |-> 1, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4059, 1466>>, sum2 |-> <<2599, 6965, 3258, 6>>, evals |-> 139264, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 103]),
    ([at |-> 1,x |-> [s |-> [n |-> 35, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9189, 1508>>, sum2 |-> <<9499, 516, 5066, 6>>, evals |-> 143360, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 104]),
    ([at |-> 1,x |-> [s |-> [n |-> 35, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9189, 1508>>, sum2 |-> <<9499, 516, 5066, 6>>, evals |-> 143360, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 105]),
    ([at |-> 1,x |-> [s |-> [n |-> 35, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9189, 1508>>, sum2 |-> <<9499, 516, 5066, 6>>, evals |-> 143360, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 106]),
    ([at |-> 1,x |-> [s |-> [n |-> 36, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9975, 1551>>, sum2 |-> <<7295, 8174, 6921, 6>>, evals |-> 147456, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 107]),
    ([at |-> 1,x |-> [s |-> [n |-> 36, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9975, 1551>>, sum2 |-> <<7295, 8174, 6921, 6>>, evals |-> 147456, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 108]),
    ([at |-> 1,x |-> [s |-> [n |-> 36, rlock |-> 5, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9975, 1551>>, sum2 |-> <<7295, 8174, 6921, 6>>, evals |-> 147456, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 109]),
    ([at |-> 1,x |-> [s |-> [n |-> 37, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7801, 1595>>, sum2 |-> <<3571, 7335, 8838, 6>>, evals |-> 151552, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 110]),
    ([at |-> 1,x |-> [s |-> [n |-> 37, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7801, 1595>>, sum2 |-> <<3571, 7335, 8838, 6>>, evals |-> 151552, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 111]),
    ([at |-> 1,x |-> [s |-> [n |-> 37, rlock |-> 2, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7801, 1595>>, sum2 |-> <<3571, 7335, 8838, 6>>, evals |-> 151552, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 112]),
    ([at |-> 1,x |-> [s |-> [n |-> 38, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1191, 1639>>, sum2 |-> <<5671, 24, 717, 7>>, evals |-> 155648, token |-> FALSE, pc |-> <<"sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 113]),
    ([at |-> 1,x |-> [s |-> [n |-> 38, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1191, 1639>>, sum2 |-> <<5671, 24, 717, 7>>, evals |-> 155648, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 114]),
    ([at |-> 1,x |-> [s |-> [n |-> 38, rlock |-> 8, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1191, 1639>>, sum2 |-> <<5671, 24, 717, 7>>, evals |-> 155648, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 115]),
    ([at |-> 1,x |-> [s |-> [n |-> 39, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5151, 1682>>, sum2 |-> <<7271, 2152, 2600, 7>>, evals |-> 159744, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 116]),
    ([at |-> 1,x |-> [s |-> [n |-> 39, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5151, 1682>>, sum2 |-> <<7271, 2152, 2600, 7>>, evals |-> 159744, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 117]),
    ([at |-> 1,x |-> [s |-> [n |-> 39, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5151, 1682>>, sum2 |-> <<7271, 2152, 2600, 7>>, evals |-> 159744, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 118]),
    ([at |-> 1,x |-> [s |-> [n |-> 40, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3252, 1725>>, sum2 |-> <<3472, 9199, 4432, 7>>, evals |-> 163840, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 119]),
    ([at |-> 1,x |-> [s |-> [n |-> 40, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3252, 1725>>, sum2 |-> <<3472, 9199, 4432, 7>>, evals |-> 163840, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 120]),
    ([at |-> 1,x |-> [s |-> [n |-> 40, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3252, 1725>>, sum2 |-> <<3472, 9199, 4432, 7>>, evals |-> 163840, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 121]),
    ([at |-> 1,x |-> [s |-> [n |-> 41, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<426, 1769>>, sum2 |-> <<9748, 1309, 6344, 7>>, evals |-> 167936, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 122]),
    ([at |-> 1,x |-> [s |-> [n |-> 41, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<426, 1769>>, sum2 |-> <<9748, 1309, 6344, 7>>, evals |-> 167936, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 123]),
    ([at |-> 1,x |-> [s |-> [n |-> 41, rlock |-> 4, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<426, 1769>>, sum2 |-> <<9748, 1309, 6344, 7>>, evals |-> 167936, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 124]),
    ([at |-> 1,x |-> [s |-> [n |-> 42, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5841, 1811>>, sum2 |-> <<1973, 9102, 8153, 7>>, evals |-> 172032, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 125]),
    ([at |-> 1,x |-> [s |-> [n |-> 42, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5841, 1811>>, sum2 |-> <<1973, 9102, 8153, 7>>, evals |-> 172032, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 126]),
    ([at |-> 1,x |-> [s |-> [n |-> 42, rlock |-> 5, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5841, 1811>>, sum2 |-> <<1973, 9102, 8153, 7>>, evals |-> 172032, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 127]),
    ([at |-> 1,x |-> [s |-> [n |-> 43, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<411, 1855>>, sum2 |-> <<6873, 4210, 42, 8>>, evals |-> 176128, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 128]),
    ([at |-> 1,x |-> [s |-> [n |-> 43, rlock |-> 1, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<411, 1855>>, sum2 |-> <<6873, 4210, 42, 8>>, evals |-> 176128, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 129]),
    ([at |-> 1,x |-> [s |-> [n |-> 43, rlock |-> 1, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<411, 1855>>, sum2 |-> <<6873, 4210, 42, 8>>, evals |-> 176128, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 130]),
    ([at |-> 1,x |-> [s |-> [n |-> 44, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5134, 1897>>, sum2 |-> <<3602, 3173, 1846, 8>>, evals |-> 180224, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 131]),
    ([at |-> 1,x |-> [s |-> [n |-> 44, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5134, 1897>>, sum2 |-> <<3602, 3173, 1846, 8>>, evals |-> 180224, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 132]),
    ([at |-> 1,x |-> [s |-> [n |-> 44, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5134, 1897>>, sum2 |-> <<3602, 3173, 1846, 8>>, evals |-> 180224, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 133]),
    ([at |-> 1,x |-> [s |-> [n |-> 45, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7294, 1939>>, sum2 |-> <<9202, 5079, 3628, 8>>, evals |-> 184320, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 134]),
    ([at |-> 1,x |-> [s |-> [n |-> 45, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7294, 1939>>, sum2 |-> <<9202, 5079, 3628, 8>>, evals |-> 184320, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 135]),
    ([at |-> 1,x |-> [s |-> [n |-> 45, rlock |-> 2, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7294, 1939>>, sum2 |-> <<9202, 5079, 3628, 8>>, evals |-> 184320, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 136]),
    ([at |-> 1,x |-> [s |-> [n |-> 46, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4581, 1982>>, sum2 |-> <<9571, 2497, 5454, 8>>, evals |-> 188416, token |-> FALSE, pc |-> <<"sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 137]),
    ([at |-> 1,x |-> [s |-> [n |-> 46, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4581, 1982>>, sum2 |-> <<9571, 2497, 5454, 8>>, evals |-> 188416, token |-> FALSE, pc |-> <<"sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 138]),
    ([at |-> 1,x |-> [s |-> [n |-> 46, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4581, 1982>>, sum2 |-> <<9571, 2497, 5454, 8>>, evals |-> 188416, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 139]),
    ([at |-> 1,x |-> [s |-> [n |-> 47, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2804, 2025>>, sum2 |-> <<7300, 9991, 7287, 8>>, evals |-> 192512, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 140]),
    ([at |-> 1,x |-> [s |-> [n |-> 47, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2804, 2025>>, sum2 |-> <<7300, 9991, 7287, 8>>, evals |-> 192512, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 141]),
    ([at |-> 1,x |-> [s |-> [n |-> 47, rlock |-> 3, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2804, 2025>>, sum2 |-> <<7300, 9991, 7287, 8>>, evals |-> 192512, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 142]),
    ([at |-> 1,x |-> [s |-> [n |-> 48, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1393, 2068>>, sum2 |-> <<8221, 8844, 9124, 8>>, evals |-> 196608, token |-> FALSE, pc |-> <<"sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 143]),
    ([at |-> 1,x |-> [s |-> [n |-> 48, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1393, 2068>>, sum2 |-> <<8221, 8844, 9124, 8>>, evals |-> 196608, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 144]),
    ([at |-> 1,x |-> [s |-> [n |-> 48, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1393, 2068>>, sum2 |-> <<8221, 8844, 9124, 8>>, evals |-> 196608, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 145]),
    ([at |-> 1,x |-> [s |-> [n |-> 49, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2586, 2111>>, sum2 |-> <<1470, 1585, 984, 9>>, evals |-> 200704, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 146]),
    ([at |-> 1,x |-> [s |-> [n |-> 49, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2586, 2111>>, sum2 |-> <<1470, 1585, 984, 9>>, evals |-> 200704, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 147]),
    ([at |-> 1,x |-> [s |-> [n |-> 49, rlock |-> 4, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2586, 2111>>, sum2 |-> <<1470, 1585, 984, 9>>, evals |-> 200704, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 148]),
    ([at |-> 1,x |-> [s |-> [n |-> 50, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5081, 2154>>, sum2 |-> <<6495, 6777, 2854, 9>>, evals |-> 204800, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 149]),
    ([at |-> 1,x |-> [s |-> [n |-> 50, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5081, 2154>>, sum2 |-> <<6495, 6777, 2854, 9>>, evals |-> 204800, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 150]),
    ([at |-> 1,x |-> [s |-> [n |-> 50, rlock |-> 1, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5081, 2154>>, sum2 |-> <<6495, 6777, 2854, 9>>, evals |-> 204800, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 151]),
    ([at |-> 1,x |-> [s |-> [n |-> 51, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1228, 2197>>, sum2 |-> <<2104, 6904, 4670, 9>>, evals |-> 208896, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 152]),
    ([at |-> 1,x |-> [s |-> [n |-> 51, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1228, 2197>>, sum2 |-> <<2104, 6904, 4670, 9>>, evals |-> 208896, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 153]),
    ([at |-> 1,x |-> [s |-> [n |-> 51, rlock |-> 2, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1228, 2197>>, sum2 |-> <<2104, 6904, 4670, 9>>, evals |-> 208896, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 154]),
    ([at |-> 1,x |-> [s |-> [n |-> 52, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<61, 2240>>, sum2 |-> <<3993, 6678, 6509, 9>>, evals |-> 212992, token |-> FALSE, pc |-> <<"sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 155]),
    ([at |-> 1,x |-> [s |-> [n |-> 52, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<61, 2240>>, sum2 |-> <<3993, 6678, 6509, 9>>, evals |-> 212992, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 156]),
    ([at |-> 1,x |-> [s |-> [n |-> 52, rlock |-> 8, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<61, 2240>>, sum2 |-> <<3993, 6678, 6509, 9>>, evals |-> 212992, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 157]),
    ([at |-> 1,x |-> [s |-> [n |-> 53, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5191, 2282>>, sum2 |-> <<893, 230, 8317, 9>>, evals |-> 217088, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 158]),
    ([at |-> 1,x |-> [s |-> [n |-> 53, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5191, 2282>>, sum2 |-> <<893, 230, 8317, 9>>, evals |-> 217088, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 159]),
    ([at |-> 1,x |-> [s |-> [n |-> 53, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5191, 2282>>, sum2 |-> <<893, 230, 8317, 9>>, evals |-> 217088, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 160]),
    ([at |-> 1,x |-> [s |-> [n |-> 54, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6394, 2326>>, sum2 |-> <<8102, 6238, 263, 10>>, evals |-> 221184, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 161]),
    ([at |-> 1,x |-> [s |-> [n |-> 54, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6394, 2326>>, sum2 |-> <<8102, 6238, 263, 10>>, evals |-> 221184, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 162]),
    ([at |-> 1,x |-> [s |-> [n |-> 54, rlock |-> 5, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6394, 2326>>, sum2 |-> <<8102, 6238, 263, 10>>, evals |-> 221184, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 163]),
    ([at |-> 1,x |-> [s |-> [n |-> 55, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2104, 2370>>, sum2 |-> <<2202, 559, 2162, 10>>, evals |-> 225280, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 164]),
    ([at |-> 1,x |-> [s |-> [n |-> 55, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2104, 2370>>, sum2 |-> <<2202, 559, 2162, 10>>, evals |-> 225280, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 165]),
    ([at |-> 1,x |-> [s |-> [n |-> 55, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2104, 2370>>, sum2 |-> <<2202, 559, 2162, 10>>, evals |-> 225280, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 166]),
    ([at |-> 1,x |-> [s |-> [n |-> 56, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6217, 2412>>, sum2 |-> <<8971, 7742, 3960, 10>>, evals |-> 229376, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 167]),
    ([at |-> 1,x |-> [s |-> [n |-> 56, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6217, 2412>>, sum2 |-> <<8971, 7742, 3960, 10>>, evals |-> 229376, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 168]),
    ([at |-> 1,x |-> [s |-> [n |-> 56, rlock |-> 4, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6217, 2412>>, sum2 |-> <<8971, 7742, 3960, 10>>, evals |-> 229376, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 169]),
    ([at |-> 1,x |-> [s |-> [n |-> 57, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2527, 2455>>, sum2 |-> <<5071, 1764, 5778, 10>>, evals |-> 233472, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 170]),
    ([at |-> 1,x |-> [s |-> [n |-> 57, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2527, 2455>>, sum2 |-> <<5071, 1764, 5778, 10>>, evals |-> 233472, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 171]),
    ([at |-> 1,x |-> [s |-> [n |-> 57, rlock |-> 2, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2527, 2455>>, sum2 |-> <<5071, 1764, 5778, 10>>, evals |-> 233472, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 172]),
    ([at |-> 1,x |-> [s |-> [n |-> 58, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8145, 2497>>, sum2 |-> <<6995, 6832, 7589, 10>>, evals |-> 237568, token |-> FALSE, pc |-> <<"sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 173]),
    ([at |-> 1,x |-> [s |-> [n |-> 58, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8145, 2497>>, sum2 |-> <<6995, 6832, 7589, 10>>, evals |-> 237568, token |-> FALSE, pc |-> <<"sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 174]),
    ([at |-> 1,x |-> [s |-> [n |-> 58, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8145, 2497>>, sum2 |-> <<6995, 6832, 7589, 10>>, evals |-> 237568, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 175]),
    ([at |-> 1,x |-> [s |-> [n |-> 59, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4089, 2540>>, sum2 |-> <<8131, 9661, 9403, 10>>, evals |-> 241664, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 176]),
    ([at |-> 1,x |-> [s |-> [n |-> 59, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4089, 2540>>, sum2 |-> <<8131, 9661, 9403, 10>>, evals |-> 241664, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 177]),
    ([at |-> 1,x |-> [s |-> [n |-> 59, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4089, 2540>>, sum2 |-> <<8131, 9661, 9403, 10>>, evals |-> 241664, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 178]),
    ([at |-> 1,x |-> [s |-> [n |-> 60, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8619, 2583>>, sum2 |-> <<9031, 1293, 1292, 11>>, evals |-> 245760, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 179]),
    ([at |-> 1,x |-> [s |-> [n |-> 60, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8619, 2583>>, sum2 |-> <<9031, 1293, 1292, 11>>, evals |-> 245760, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 180]),
    ([at |-> 1,x |-> [s |-> [n |-> 60, rlock |-> 1, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8619, 2583>>, sum2 |-> <<9031, 1293, 1292, 11>>, evals |-> 245760, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 181]),
    ([at |-> 1,x |-> [s |-> [n |-> 61, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4644, 2626>>, sum2 |-> <<9656, 1023, 3107, 11>>, evals |-> 249856, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 182]),
    ([at |-> 1,x |-> [s |-> [n |-> 61, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4644, 2626>>, sum2 |-> <<9656, 1023, 3107, 11>>, evals |-> 249856, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 183]),
    ([at |-> 1,x |-> [s |-> [n |-> 61, rlock |-> 3, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4644, 2626>>, sum2 |-> <<9656, 1023, 3107, 11>>, evals |-> 249856, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 184]),
    ([at |-> 1,x |-> [s |-> [n |-> 62, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8075, 2669>>, sum2 |-> <<1417, 7267, 4985, 11>>, evals |-> 253952, token |-> FALSE, pc |-> <<"sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 185]),
    ([at |-> 1,x |-> [s |-> [n |-> 62, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8075, 2669>>, sum2 |-> <<1417, 7267, 4985, 11>>, evals |-> 253952, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 186]),
    ([at |-> 1,x |-> [s |-> [n |-> 62, rlock |-> 5, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8075, 2669>>, sum2 |-> <<1417, 7267, 4985, 11>>, evals |-> 253952, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 187]),
    ([at |-> 1,x |-> [s |-> [n |-> 63, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4670, 2712>>, sum2 |-> <<5442, 5596, 6805, 11>>, evals |-> 258048, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 188]),
    ([at |-> 1,x |-> [s |-> [n |-> 63, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4670, 2712>>, sum2 |-> <<5442, 5596, 6805, 11>>, evals |-> 258048, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 189]),
    ([at |-> 1,x |-> [s |-> [n |-> 63, rlock |-> 4, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4670, 2712>>, sum2 |-> <<5442, 5596, 6805, 11>>, evals |-> 258048, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 190]),
    ([at |-> 1,x |-> [s |-> [n |-> 64, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3991, 2755>>, sum2 |-> <<6483, 7248, 8648, 11>>, evals |-> 262144, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 191]),
    ([at |-> 1,x |-> [s |-> [n |-> 64, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3991, 2755>>, sum2 |-> <<6483, 7248, 8648, 11>>, evals |-> 262144, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 192]),
    ([at |-> 1,x |-> [s |-> [n |-> 64, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3991, 2755>>, sum2 |-> <<6483, 7248, 8648, 11>>, evals |-> 262144, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 193]),
    ([at |-> 1,x |-> [s |-> [n |-> 65, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7941, 2797>>, sum2 |-> <<8983, 608, 446, 12>>, evals |-> 266240, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 194]),
    ([at |-> 1,x |-> [s |-> [n |-> 65, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7941, 2797>>, sum2 |-> <<8983, 608, 446, 12>>, evals |-> 266240, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 195]),
    ([at |-> 1,x |-> [s |-> [n |-> 65, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7941, 2797>>, sum2 |-> <<8983, 608, 446, 12>>, evals |-> 266240, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 196]),
    ([at |-> 1,x |-> [s |-> [n |-> 66, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9582, 2840>>, sum2 |-> <<1864, 2004, 2309, 12>>, evals |-> 270336, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 197]),
    ([at |-> 1,x |-> [s |-> [n |-> 66, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9582, 2840>>, sum2 |-> <<1864, 2004, 2309, 12>>, evals |-> 270336, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 198]),
    ([at |-> 1,x |-> [s |-> [n |-> 66, rlock |-> 8, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9582, 2840>>, sum2 |-> <<1864, 2004, 2309, 12>>, evals |-> 270336, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 199]),
    ([at |-> 1,x |-> [s |-> [n |-> 67, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7398, 2883>>, sum2 |-> <<1720, 4657, 4139, 12>>, evals |-> 274432, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 200]),
    ([at |-> 1,x |-> [s |-> [n |-> 67, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7398, 2883>>, sum2 |-> <<1720, 4657, 4139, 12>>, evals |-> 274432, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 201]),
    ([at |-> 1,x |-> [s |-> [n |-> 67, rlock |-> 2, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7398, 2883>>, sum2 |-> <<1720, 4657, 4139, 12>>, evals |-> 274432, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 202]),
    ([at |-> 1,x |-> [s |-> [n |-> 68, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3169, 2925>>, sum2 |-> <<6161, 1209, 5868, 12>>, evals |-> 278528, token |-> FALSE, pc |-> <<"sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 203]),
    ([at |-> 1,x |-> [s |-> [n |-> 68, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3169, 2925>>, sum2 |-> <<6161, 1209, 5868, 12>>, evals |-> 278528, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 204]),
    ([at |-> 1,x |-> [s |-> [n |-> 68, rlock |-> 1, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3169, 2925>>, sum2 |-> <<6161, 1209, 5868, 12>>, evals |-> 278528, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 205]),
    ([at |-> 1,x |-> [s |-> [n |-> 69, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1554, 2968>>, sum2 |-> <<4386, 2580, 7703, 12>>, evals |-> 282624, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 206]),
    ([at |-> 1,x |-> [s |-> [n |-> 69, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1554, 2968>>, sum2 |-> <<4386, 2580, 7703, 12>>, evals |-> 282624, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 207]),
    ([at |-> 1,x |-> [s |-> [n |-> 69, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1554, 2968>>, sum2 |-> <<4386, 2580, 7703, 12>>, evals |-> 282624, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 208]),
    ([at |-> 1,x |-> [s |-> [n |-> 70, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8190, 3010>>, sum2 |-> <<882, 4408, 9523, 12>>, evals |-> 286720, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 209]),
    ([at |-> 1,x |-> [s |-> [n |-> 70, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8190, 3010>>, sum2 |-> <<882, 4408, 9523, 12>>, evals |-> 286720, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 210]),
    ([at |-> 1,x |-> [s |-> [n |-> 70, rlock |-> 4, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<8190, 3010>>, sum2 |-> <<882, 4408, 9523, 12>>, evals |-> 286720, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 211]),
    ([at |-> 1,x |-> [s |-> [n |-> 71, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3524, 3053>>, sum2 |-> <<2438, 5309, 1332, 13>>, evals |-> 290816, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 212]),
    ([at |-> 1,x |-> [s |-> [n |-> 71, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3524, 3053>>, sum2 |-> <<2438, 5309, 1332, 13>>, evals |-> 290816, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 213]),
    ([at |-> 1,x |-> [s |-> [n |-> 71, rlock |-> 1, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3524, 3053>>, sum2 |-> <<2438, 5309, 1332, 13>>, evals |-> 290816, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 214]),
    ([at |-> 1,x |-> [s |-> [n |-> 72, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1584, 3096>>, sum2 |-> <<6038, 8845, 3164, 13>>, evals |-> 294912, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 215]),
    ([at |-> 1,x |-> [s |-> [n |-> 72, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1584, 3096>>, sum2 |-> <<6038, 8845, 3164, 13>>, evals |-> 294912, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 216]),
    ([at |-> 1,x |-> [s |-> [n |-> 72, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1584, 3096>>, sum2 |-> <<6038, 8845, 3164, 13>>, evals |-> 294912, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 217]),
    ([at |-> 1,x |-> [s |-> [n |-> 73, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9654, 3139>>, sum2 |-> <<938, 9378, 5083, 13>>, evals |-> 299008, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 218]),
    ([at |-> 1,x |-> [s |-> [n |-> 73, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9654, 3139>>, sum2 |-> <<938, 9378, 5083, 13>>, evals |-> 299008, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 219]),
    ([at |-> 1,x |-> [s |-> [n |-> 73, rlock |-> 4, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9654, 3139>>, sum2 |-> <<938, 9378, 5083, 13>>, evals |-> 299008, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 220]),
    ([at |-> 1,x |-> [s |-> [n |-> 74, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<806, 3183>>, sum2 |-> <<8042, 8582, 6942, 13>>, evals |-> 303104, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 221]),
    ([at |-> 1,x |-> [s |-> [n |-> 74, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<806, 3183>>, sum2 |-> <<8042, 8582, 6942, 13>>, evals |-> 303104, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 222]),
    ([at |-> 1,x |-> [s |-> [n |-> 74, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<806, 3183>>, sum2 |-> <<8042, 8582, 6942, 13>>, evals |-> 303104, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 223]),
    ([at |-> 1,x |-> [s |-> [n |-> 75, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7971, 3225>>, sum2 |-> <<5267, 5576, 8767, 13>>, evals |-> 307200, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 224]),
    ([at |-> 1,x |-> [s |-> [n |-> 75, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7971, 3225>>, sum2 |-> <<5267, 5576, 8767, 13>>, evals |-> 307200, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 225]),
    ([at |-> 1,x |-> [s |-> [n |-> 75, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7971, 3225>>, sum2 |-> <<5267, 5576, 8767, 13>>, evals |-> 307200, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 226]),
    ([at |-> 1,x |-> [s |-> [n |-> 76, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<751, 3269>>, sum2 |-> <<3667, 5429, 640, 14>>, evals |-> 311296, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 227]),
    ([at |-> 1,x |-> [s |-> [n |-> 76, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<751, 3269>>, sum2 |-> <<3667, 5429, 640, 14>>, evals |-> 311296, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 228]),
    ([at |-> 1,x |-> [s |-> [n |-> 76, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<751, 3269>>, sum2 |-> <<3667, 5429, 640, 14>>, evals |-> 311296, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 229]),
    ([at |-> 1,x |-> [s |-> [n |-> 77, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6776, 3311>>, sum2 |-> <<4292, 5159, 2455, 14>>, evals |-> 315392, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 230]),
    ([at |-> 1,x |-> [s |-> [n |-> 77, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6776, 3311>>, sum2 |-> <<4292, 5159, 2455, 14>>, evals |-> 315392, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 231]),
    ([at |-> 1,x |-> [s |-> [n |-> 77, rlock |-> 8, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6776, 3311>>, sum2 |-> <<4292, 5159, 2455, 14>>, evals |-> 315392, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 232]),
    ([at |-> 1,x |-> [s |-> [n |-> 78, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7368, 3355>>, sum2 |-> <<4756, 7290, 4396, 14>>, evals |-> 319488, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 233]),
    ([at |-> 1,x |-> [s |-> [n |-> 78, rlock |-> 5, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7368, 3355>>, sum2 |-> <<4756, 7290, 4396, 14>>, evals |-> 319488, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 234]),
    ([at |-> 1,x |-> [s |-> [n |-> 78, rlock |-> 5, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7368, 3355>>, sum2 |-> <<4756, 7290, 4396, 14>>, evals |-> 319488, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 235]),
    ([at |-> 1,x |-> [s |-> [n |-> 79, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5428, 3398>>, sum2 |-> <<8356, 826, 6229, 14>>, evals |-> 323584, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 236]),
    ([at |-> 1,x |-> [s |-> [n |-> 79, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5428, 3398>>, sum2 |-> <<8356, 826, 6229, 14>>, evals |-> 323584, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 237]),
    ([at |-> 1,x |-> [s |-> [n |-> 79, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5428, 3398>>, sum2 |-> <<8356, 826, 6229, 14>>, evals |-> 323584, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 238]),
    ([at |-> 1,x |-> [s |-> [n |-> 80, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9175, 3440>>, sum2 |-> <<8365, 6978, 8024, 14>>, evals |-> 327680, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 239]),
    ([at |-> 1,x |-> [s |-> [n |-> 80, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9175, 3440>>, sum2 |-> <<8365, 6978, 8024, 14>>, evals |-> 327680, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 240]),
    ([at |-> 1,x |-> [s |-> [n |-> 80, rlock |-> 1, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9175, 3440>>, sum2 |-> <<8365, 6978, 8024, 14>>, evals |-> 327680, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 241]),
    ([at |-> 1,x |-> [s |-> [n |-> 81, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7967, 3483>>, sum2 |-> <<7629, 3236, 9863, 14>>, evals |-> 331776, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 242]),
    ([at |-> 1,x |-> [s |-> [n |-> 81, rlock |-> 3, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7967, 3483>>, sum2 |-> <<7629, 3236, 9863, 14>>, evals |-> 331776, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 243]),
    ([at |-> 1,x |-> [s |-> [n |-> 82, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<819, 3526>>, sum2 |-> <<1533, 3618, 1651, 15>>, evals |-> 335872, token |-> FALSE, pc |-> <<"check", "sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 244]),
    ([at |-> 1,x |-> [s |-> [n |-> 82, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<819, 3526>>, sum2 |-> <<1533, 3618, 1651, 15>>, evals |-> 335872, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 245]),
    ([at |-> 1,x |-> [s |-> [n |-> 82, rlock |-> 2, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<819, 3526>>, sum2 |-> <<1533, 3618, 1651, 15>>, evals |-> 335872, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 246]),
    ([at |-> 1,x |-> [s |-> [n |-> 83, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3192, 3569>>, sum2 |-> <<2662, 8259, 3520, 15>>, evals |-> 339968, token |-> FALSE, pc |-> <<"check", "check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 247]),
    ([at |-> 1,x |-> [s |-> [n |-> 83, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3192, 3569>>, sum2 |-> <<2662, 8259, 3520, 15>>, evals |-> 339968, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 248]),
    ([at |-> 1,x |-> [s |-> [n |-> 83, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3192, 3569>>, sum2 |-> <<2662, 8259, 3520, 15>>, evals |-> 339968, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 249]),
    ([at |-> 1,x |-> [s |-> [n |-> 84, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6532, 3611>>, sum2 |-> <<8262, 9934, 5312, 15>>, evals |-> 344064, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 250]),
    ([at |-> 1,x |-> [s |-> [n |-> 84, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6532, 3611>>, sum2 |-> <<8262, 9934, 5312, 15>>, evals |-> 344064, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 251]),
    ([at |-> 1,x |-> [s |-> [n |-> 84, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6532, 3611>>, sum2 |-> <<8262, 9934, 5312, 15>>, evals |-> 344064, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 252]),
    ([at |-> 1,x |-> [s |-> [n |-> 84, rlock |-> 5, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<6532, 3611>>, sum2 |-> <<8262, 9934, 5312, 15>>, evals |-> 344064, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 253]),
    ([at |-> 1,x |-> [s |-> [n |-> 85, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<980, 3655>>, sum2 |-> <<2966, 4441, 7200, 15>>, evals |-> 348160, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 254]),
    ([at |-> 1,x |-> [s |-> [n |-> 85, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<980, 3655>>, sum2 |-> <<2966, 4441, 7200, 15>>, evals |-> 348160, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 255]),
    ([at |-> 1,x |-> [s |-> [n |-> 85, rlock |-> 4, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<980, 3655>>, sum2 |-> <<2966, 4441, 7200, 15>>, evals |-> 348160, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 256]),
    ([at |-> 1,x |-> [s |-> [n |-> 86, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9172, 3698>>, sum2 |-> <<1830, 5664, 9120, 15>>, evals |-> 352256, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 257]),
    ([at |-> 1,x |-> [s |-> [n |-> 86, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9172, 3698>>, sum2 |-> <<1830, 5664, 9120, 15>>, evals |-> 352256, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 258]),
    ([at |-> 1,x |-> [s |-> [n |-> 86, rlock |-> 1, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9172, 3698>>, sum2 |-> <<1830, 5664, 9120, 15>>, evals |-> 352256, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 259]),
    ([at |-> 1,x |-> [s |-> [n |-> 87, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9511, 3741>>, sum2 |-> <<6751, 4829, 972, 16>>, evals |-> 356352, token |-> FALSE, pc |-> <<"check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 260]),
    ([at |-> 1,x |-> [s |-> [n |-> 87, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9511, 3741>>, sum2 |-> <<6751, 4829, 972, 16>>, evals |-> 356352, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 261]),
    ([at |-> 1,x |-> [s |-> [n |-> 87, rlock |-> 3, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9511, 3741>>, sum2 |-> <<6751, 4829, 972, 16>>, evals |-> 356352, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 262]),
    ([at |-> 1,x |-> [s |-> [n |-> 88, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<704, 3785>>, sum2 |-> <<0, 7570, 2831, 16>>, evals |-> 360448, token |-> FALSE, pc |-> <<"sampling", "sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 263]),
    ([at |-> 1,x |-> [s |-> [n |-> 88, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<704, 3785>>, sum2 |-> <<0, 7570, 2831, 16>>, evals |-> 360448, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 264]),
    ([at |-> 1,x |-> [s |-> [n |-> 88, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<704, 3785>>, sum2 |-> <<0, 7570, 2831, 16>>, evals |-> 360448, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 265]),
    ([at |-> 1,x |-> [s |-> [n |-> 89, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4288, 3827>>, sum2 |-> <<5056, 9910, 4625, 16>>, evals |-> 364544, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 266]),
    ([at |-> 1,x |-> [s |-> [n |-> 89, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4288, 3827>>, sum2 |-> <<5056, 9910, 4625, 16>>, evals |-> 364544, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 267]),
    ([at |-> 1,x |-> [s |-> [n |-> 89, rlock |-> 5, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4288, 3827>>, sum2 |-> <<5056, 9910, 4625, 16>>, evals |-> 364544, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 268]),
    ([at |-> 1,x |-> [s |-> [n |-> 90, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1625, 3871>>, sum2 |-> <<6625, 6275, 6538, 16>>, evals |-> 368640, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 269]),
    ([at |-> 1,x |-> [s |-> [n |-> 90, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1625, 3871>>, sum2 |-> <<6625, 6275, 6538, 16>>, evals |-> 368640, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 270]),
    ([at |-> 1,x |-> [s |-> [n |-> 90, rlock |-> 8, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<1625, 3871>>, sum2 |-> <<6625, 6275, 6538, 16>>, evals |-> 368640, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 271]),
    ([at |-> 1,x |-> [s |-> [n |-> 91, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3184, 3914>>, sum2 |-> <<7106, 592, 8401, 16>>, evals |-> 372736, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 272]),
    ([at |-> 1,x |-> [s |-> [n |-> 91, rlock |-> 2, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3184, 3914>>, sum2 |-> <<7106, 592, 8401, 16>>, evals |-> 372736, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "check">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 273]),
    ([at |-> 1,x |-> [s |-> [n |-> 91, rlock |-> 2, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<3184, 3914>>, sum2 |-> <<7106, 592, 8401, 16>>, evals |-> 372736, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 274]),
    ([at |-> 1,x |-> [s |-> [n |-> 92, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4021, 3958>>, sum2 |-> <<7675, 4318, 344, 17>>, evals |-> 376832, token |-> FALSE, pc |-> <<"sampling", "check", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 275]),
    ([at |-> 1,x |-> [s |-> [n |-> 92, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4021, 3958>>, sum2 |-> <<7675, 4318, 344, 17>>, evals |-> 376832, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 276]),
    ([at |-> 1,x |-> [s |-> [n |-> 92, rlock |-> 6, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<4021, 3958>>, sum2 |-> <<7675, 4318, 344, 17>>, evals |-> 376832, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 277]),
    ([at |-> 1,x |-> [s |-> [n |-> 93, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5295, 4001>>, sum2 |-> <<751, 4045, 2204, 17>>, evals |-> 380928, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 278]),
    ([at |-> 1,x |-> [s |-> [n |-> 93, rlock |-> 4, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<5295, 4001>>, sum2 |-> <<751, 4045, 2204, 17>>, evals |-> 380928, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 279]),
    ([at |-> 1,x |-> [s |-> [n |-> 94, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7139, 4044>>, sum2 |-> <<1087, 2969, 4069, 17>>, evals |-> 385024, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "check", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 280]),
    ([at |-> 1,x |-> [s |-> [n |-> 94, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7139, 4044>>, sum2 |-> <<1087, 2969, 4069, 17>>, evals |-> 385024, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 281]),
    ([at |-> 1,x |-> [s |-> [n |-> 94, rlock |-> 2, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<7139, 4044>>, sum2 |-> <<1087, 2969, 4069, 17>>, evals |-> 385024, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 282]),
    ([at |-> 1,x |-> [s |-> [n |-> 95, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2238, 4088>>, sum2 |-> <<888, 4083, 5962, 17>>, evals |-> 389120, token |-> FALSE, pc |-> <<"sampling", "check", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 283]),
    ([at |-> 1,x |-> [s |-> [n |-> 95, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2238, 4088>>, sum2 |-> <<888, 4083, 5962, 17>>, evals |-> 389120, token |-> FALSE, pc |-> <<"sampling", "check", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 284]),
    ([at |-> 1,x |-> [s |-> [n |-> 95, rlock |-> 7, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<2238, 4088>>, sum2 |-> <<888, 4083, 5962, 17>>, evals |-> 389120, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 285]),
    ([at |-> 1,x |-> [s |-> [n |-> 96, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9281, 4130>>, sum2 |-> <<4737, 655, 7786, 17>>, evals |-> 393216, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "check", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 286]),
    ([at |-> 1,x |-> [s |-> [n |-> 96, rlock |-> 5, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9281, 4130>>, sum2 |-> <<4737, 655, 7786, 17>>, evals |-> 393216, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "check", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 287]),
    ([at |-> 1,x |-> [s |-> [n |-> 96, rlock |-> 5, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> FALSE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9281, 4130>>, sum2 |-> <<4737, 655, 7786, 17>>, evals |-> 393216, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "sampling", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>],i |-> 288]),
    ([at |-> 1,x |-> [s |-> [n |-> 97, rlock |-> 0, mine |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>, size |-> 4096, stopped |-> TRUE, since |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sum |-> <<9620, 4173>>, sum2 |-> <<9658, 9820, 9637, 17>>, evals |-> 397312, token |-> FALSE, pc |-> <<"sampling", "sampling", "sampling", "sampling", "check", "check", "sampling", "sampling">>, more |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, returned |-> FALSE], knew |-> <<FALSE, FALSE, FALSE, FALSE, TRUE, FALSE, FALSE, FALSE>>],i |-> 289]),
    ([at |-> 1,x |-> [bad |-> TRUE],i |-> 290])
    >>
----


=============================================================================

---- CONFIG SampleTrace_TTrace_1795072799 ----
CONSTANTS
    Chunks = 1
    Least = 10
    Patience = 64

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 07:20:01 UTC 2026