------------------------------- MODULE MCCow --------------------------------
EXTENDS CowRef
B1 == (1 :> 5)
B1deep == (1 :> 6)
B2 == (1 :> 2) @@ (2 :> 2)
B2deep == (1 :> 3) @@ (2 :> 2)
B3 == (1 :> 1) @@ (2 :> 1) @@ (3 :> 1)
B3deep == (1 :> 2) @@ (2 :> 1) @@ (3 :> 1)
StateView == vars
=============================================================================
