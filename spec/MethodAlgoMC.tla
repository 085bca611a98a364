---- MODULE MethodAlgoMC ----
EXTENDS MethodAlgo
D(k, i, o, c) == [kind |-> k, ins |-> i, outs |-> o, c |-> c]
V2 == {<<"n">>, <<"i", 0>>, <<"i", 1>>}
\* the shape that lost updates: 2 and 3 from 1, 4 from 2 and 3, 5 from 3 alone
Fan == << D("mod", <<1>>, <<2>>, 0), D("mod", <<1>>, <<3>>, 1), D("mod", <<2, 3>>, <<4>>, 0), D("mod", <<3>>, <<5>>, 1) >>
\* chain with a partial method, a competing producer and a would-be cycle
Mix == << D("mod", <<1>>, <<2>>, 1), D("part", <<2>>, <<3>>, 0), D("mod", <<1, 2>>, <<3>>, 0), D("mod", <<3>>, <<1>>, 0) >>
\* two outputs, no inputs
Two == << D("mod", <<1>>, <<2, 3>>, 0), D("mod", <<2, 3>>, <<4>>, 1), D("set", <<>>, <<1>>, 1) >>
====
