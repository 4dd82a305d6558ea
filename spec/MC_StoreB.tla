----------------------------- MODULE MC_StoreB -----------------------------
(* keys that are prefixes and directories of one another *)
EXTENDS MC_Store
BNames == <<"a", "a/b", "a/b/c", "a-", "A">>
BBuckets == {"bkt"}
BMetas == {"", "m"}
BContents == {<<<<1>>, "">>, <<<<2>>, "m">>}
BPrefixes == {"", "a", "a/", "a/b", "a/b/", "A", "b", "a/b/c/d"}
BUps == Nothing
BUpKeys == {}
BCopyTo == {}
BMany == {<<2, 3>>, <<3, 2, 1>>, <<1, 4, 5>>}
BWithout == {}
=============================================================================
