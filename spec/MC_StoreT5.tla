----------------------------- MODULE MC_StoreT5 -----------------------------
(* two uploads at a time *)
EXTENDS MC_Store
T5Names == <<"k", "o">>
T5Buckets == {"bkt"}
T5Metas == {""}
T5Contents == {<<<<3>>, "">>}
T5Prefixes == {""}
T5Ups == ("u1" :> {<<1, <<1>>>>}) @@ ("u2" :> {<<2, <<2>>>>})
T5UpKeys == {1, 2}
T5CopyTo == {}
T5Many == {<<1, 2>>}
T5Without == {"copy", "form", "location", "deletes", "head", "deletebucket", "put"}
=============================================================================
