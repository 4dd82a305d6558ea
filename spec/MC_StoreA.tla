----------------------------- MODULE MC_StoreA -----------------------------
(* two buckets with two keys each, contents and metadata in all combinations *)
EXTENDS MC_Store
ANames == <<"a", "d/e">>
ABuckets == {"bkt", "b2x"}
AMetas == {"", "m"}
AContents == {<<<<1>>, "">>, <<<<2>>, "m">>, <<<<>>, "">>}
APrefixes == {"", "d"}
AUps == Nothing
AUpKeys == {}
ACopyTo == {"", "m"}
AMany == {<<1>>, <<2, 1>>, <<1, 1>>}
AWithout == {}
=============================================================================
