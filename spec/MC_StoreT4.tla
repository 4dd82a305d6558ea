----------------------------- MODULE MC_StoreT4 -----------------------------
(* one upload at a time and the one that was completed last *)
EXTENDS MC_Store
T4Names == <<"k", "o">>
T4Buckets == {"bkt"}
T4Metas == {"", "m"}
T4Contents == {<<<<3>>, "">>}
T4Prefixes == {""}
T4Ups == ("u1" :> {<<1, <<1>>>>, <<1, <<2>>>>, <<2, <<1>>>>})
T4UpKeys == {1}
T4CopyTo == {}
T4Many == {<<1, 2>>}
T4Without == {"copy", "form", "location", "deletes"}
=============================================================================
