---- MODULE UMx_TTrace_1795060998 ----
EXTENDS UMx, Sequences, TLCExt, Toolbox, Naturals, TLC

_expression ==
    LET UMx_TEExpression == INSTANCE UMx_TEExpression
    IN UMx_TEExpression!expression
----

_trace ==
    LET UMx_TETrace == INSTANCE UMx_TETrace
    IN UMx_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        uses = (<<[k |-> "opt", rev |-> TRUE], [k |-> "opt", rev |-> FALSE]>>)
        /\
        n = (1)
    )
----

_init ==
    /\ n = _TETrace[1].n
    /\ uses = _TETrace[1].uses
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ n  = _TETrace[i].n
        /\ n' = _TETrace[j].n
        /\ uses  = _TETrace[i].uses
        /\ uses' = _TETrace[j].uses

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("UMx_TTrace_1795060998.json", _TETrace)

=============================================================================

 Note that you can extract this module `UMx_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `UMx_TEExpression.tla` file takes precedence 
  over the module `UMx_TEExpression` below).

---- MODULE UMx_TEExpression ----
EXTENDS UMx, Sequences, TLCExt, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `UMx` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        n |-> n
        ,uses |-> uses
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_nUnchanged |-> n = n'
        
        \* Format the `n` variable as Json value.
        \* ,_nJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(n)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_nModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].n # _TETrace[s-1].n
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE UMx_TETrace ----
\*EXTENDS UMx, IOUtils, TLC
\*
\*trace == IODeserialize("UMx_TTrace_1795060998.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE UMx_TETrace ----
EXTENDS UMx, TLC

trace == 
    <<
    ([uses |-> <<>>,n |-> 1]),
    ([uses |-> <<[k |-> "opt", rev |-> TRUE]>>,n |-> 1]),
    ([uses |-> <<[k |-> "opt", rev |-> TRUE], [k |-> "opt", rev |-> FALSE]>>,n |-> 1])
    >>
----


=============================================================================

---- CONFIG UMx_TTrace_1795060998 ----
CONSTANTS
    MaxUses = 2
    MaxBound = 3
    Lengths = { 0 , 1 , 2 , 3 , 4 }

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 04:03:20 UTC 2026