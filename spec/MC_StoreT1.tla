----------------------------- MODULE MC_StoreT1 -----------------------------
(* two buckets with two keys each *)
EXTENDS MC_Store
T1Names == <<"a", "d/e">>
T1Buckets == {"bkt", "b2x"}
T1Metas == {""}
T1Contents == {<<<<1>>, "">>, <<<<2>>, "m">>}
T1Prefixes == {"", "d"}
T1Ups == Nothing
T1UpKeys == {}
T1CopyTo == {}
T1Many == {<<2, 1>>, <<1, 1>>}
T1Without == {}
=============================================================================
