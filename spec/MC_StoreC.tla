----------------------------- MODULE MC_StoreC -----------------------------
(* two uploads at a time, and the one that was completed last *)
EXTENDS MC_Store
CNames == <<"k", "o">>
CBuckets == {"bkt"}
CMetas == {"", "m"}
CContents == {<<<<3>>, "">>}
CPrefixes == {""}
CUps == ("u1" :> {<<1, <<1>>>>, <<1, <<2>>>>, <<2, <<1>>>>}) @@ ("u2" :> {<<1, <<2>>>>})
CUpKeys == {1}
CCopyTo == {}
CMany == {<<1, 2>>}
CWithout == {"form", "location", "headbucket", "deletes"}
=============================================================================
