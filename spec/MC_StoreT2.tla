----------------------------- MODULE MC_StoreT2 -----------------------------
(* one bucket with two keys, metadata in all combinations *)
EXTENDS MC_Store
T2Names == <<"p q", "p">>
T2Buckets == {"bkt"}
T2Metas == {"", "m"}
T2Contents == {<<<<1>>, "">>, <<<<2>>, "m">>}
T2Prefixes == {"p", "p "}
T2Ups == Nothing
T2UpKeys == {}
T2CopyTo == {"", "m"}
T2Many == {<<1>>, <<2, 1>>}
T2Without == {}
=============================================================================
