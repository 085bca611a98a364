---------------------------- MODULE MethodTables ----------------------------
(* Small method tables for the exhaustive models. *)
EXTENDS MethodMC
D(k, i, o, c) == [kind |-> k, ins |-> i, outs |-> o, c |-> c]
V2 == {<<"n">>, <<"i", 0>>, <<"i", 1>>}
Fan == << D("mod", <<1>>, <<2>>, 0), D("mod", <<1>>, <<3>>, 1), D("mod", <<2, 3>>, <<4>>, 0), D("mod", <<3>>, <<5>>, 1) >>
Mix == << D("mod", <<1>>, <<2>>, 1), D("part", <<2>>, <<3>>, 0), D("mod", <<1, 2>>, <<3>>, 0), D("mod", <<3>>, <<1>>, 0) >>
Two == << D("mod", <<1>>, <<2, 3>>, 0), D("mod", <<2, 3>>, <<4>>, 1), D("set", <<>>, <<1>>, 1) >>
Cyc == << D("mod", <<1>>, <<2>>, 0), D("mod", <<2>>, <<3>>, 1), D("mod", <<3, 1>>, <<1>>, 0), D("nul", <<3>>, <<2>>, 0) >>
=============================================================================
