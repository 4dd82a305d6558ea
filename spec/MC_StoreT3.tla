----------------------------- MODULE MC_StoreT3 -----------------------------
(* keys that are prefixes and directories of one another *)
EXTENDS MC_Store
T3Names == <<"a", "a/b", "a/b/c", "a-">>
T3Buckets == {"bkt"}
T3Metas == {""}
T3Contents == {<<<<1>>, "">>, <<<<2>>, "m">>}
T3Prefixes == {"", "a", "a/", "a/b", "a/b/", "A"}
T3Ups == Nothing
T3UpKeys == {}
T3CopyTo == {}
T3Many == {<<2, 3>>, <<3, 2, 1>>}
T3Without == {}
=============================================================================
