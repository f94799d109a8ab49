------------------------------ MODULE Outcomes ------------------------------
\* what may be found afterwards: before (0: nothing) and after are versions
Finds(before, after, overwrite, interrupted) ==
    IF before # 0 /\ ~overwrite THEN {before}        \* it went elsewhere
    ELSE IF interrupted THEN {before, after} ELSE {after}
=============================================================================
