------------------------------ MODULE MCCalls -------------------------------
EXTENDS Calls
Ins == ("vim" :> [names |-> <<"tnoremap", "rshada">>, nvim |-> FALSE])
    @@ ("nvim" :> [names |-> <<"rshada", "rviminfo">>, nvim |-> TRUE])
    @@ ("user" :> [names |-> <<"Foo", "Foobar", "rviminfo">>, nvim |-> FALSE])
=============================================================================
