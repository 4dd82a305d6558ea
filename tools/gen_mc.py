"""writes the small configurations of MC_Store, and the graphs of those that are toured (with the argument graphs; spec/graphs)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import tour

SP = "/verif/spec/"
INV = ("TypeOK RightAnswers Frame RefusedChangesNothing Written ReadsArePure BucketLife NeedsBucket Completed OwnUploads "
       "ForeignIds Reads Copied Deleted Views Sensitive")
C1, C2 = '<<<<1>>, "">>', '<<<<2>>, "m">>'
CONF = {
    # explored only
    "A": ("two buckets with two keys each, contents and metadata in all combinations", dict(
        Names='<<"a", "d/e">>', Buckets='{"bkt", "b2x"}', Metas='{"", "m"}', Contents='{%s, %s, <<<<>>, "">>}' % (C1, C2),
        Prefixes='{"", "d"}', Ups="Nothing", UpKeys="{}", CopyTo='{"", "m"}', Many="{<<1>>, <<2, 1>>, <<1, 1>>}")),
    "B": ("keys that are prefixes and directories of one another", dict(
        Names='<<"a", "a/b", "a/b/c", "a-", "A">>', Buckets='{"bkt"}', Metas='{"", "m"}', Contents="{%s, %s}" % (C1, C2),
        Prefixes='{"", "a", "a/", "a/b", "a/b/", "A", "b", "a/b/c/d"}', Ups="Nothing", UpKeys="{}", CopyTo="{}",
        Many="{<<2, 3>>, <<3, 2, 1>>, <<1, 4, 5>>}")),
    "C": ("two uploads at a time, and the one that was completed last", dict(
        Names='<<"k", "o">>', Buckets='{"bkt"}', Metas='{"", "m"}', Contents='{<<<<3>>, "">>}', Prefixes='{""}',
        Ups='("u1" :> {<<1, <<1>>>>, <<1, <<2>>>>, <<2, <<1>>>>}) @@ ("u2" :> {<<1, <<2>>>>})', UpKeys="{1}", CopyTo="{}", Many="{<<1, 2>>}",
        Without='{"form", "location", "headbucket", "deletes"}')),
    # toured
    "T1": ("two buckets with two keys each", dict(
        Names='<<"a", "d/e">>', Buckets='{"bkt", "b2x"}', Metas='{""}', Contents="{%s, %s}" % (C1, C2),
        Prefixes='{"", "d"}', Ups="Nothing", UpKeys="{}", CopyTo="{}", Many="{<<2, 1>>, <<1, 1>>}")),
    "T2": ("one bucket with two keys, metadata in all combinations", dict(
        Names='<<"p q", "p">>', Buckets='{"bkt"}', Metas='{"", "m"}', Contents="{%s, %s}" % (C1, C2),
        Prefixes='{"p", "p "}', Ups="Nothing", UpKeys="{}", CopyTo='{"", "m"}', Many="{<<1>>, <<2, 1>>}")),
    "T3": ("keys that are prefixes and directories of one another", dict(
        Names='<<"a", "a/b", "a/b/c", "a-">>', Buckets='{"bkt"}', Metas='{""}', Contents="{%s, %s}" % (C1, C2),
        Prefixes='{"", "a", "a/", "a/b", "a/b/", "A"}', Ups="Nothing", UpKeys="{}", CopyTo="{}", Many="{<<2, 3>>, <<3, 2, 1>>}")),
    "T4": ("one upload at a time and the one that was completed last", dict(
        Names='<<"k", "o">>', Buckets='{"bkt"}', Metas='{"", "m"}', Contents='{<<<<3>>, "">>}', Prefixes='{""}',
        Ups='("u1" :> {<<1, <<1>>>>, <<1, <<2>>>>, <<2, <<1>>>>})', UpKeys="{1}", CopyTo="{}", Many="{<<1, 2>>}",
        Without='{"copy", "form", "location", "deletes"}')),
    "T5": ("two uploads at a time", dict(
        Names='<<"k", "o">>', Buckets='{"bkt"}', Metas='{""}', Contents='{<<<<3>>, "">>}', Prefixes='{""}',
        Ups='("u1" :> {<<1, <<1>>>>}) @@ ("u2" :> {<<2, <<2>>>>})', UpKeys="{1, 2}", CopyTo="{}", Many="{<<1, 2>>}",
        Without='{"copy", "form", "location", "deletes", "head", "deletebucket", "put"}')),
}

for x, (doc, c) in CONF.items():
    c.setdefault("Without", "{}")
    m = "MC_Store" + x
    with open(SP + m + ".tla", "w") as f:
        f.write("----------------------------- MODULE %s -----------------------------\n(* %s *)\nEXTENDS MC_Store\n" % (m, doc))
        for n, v in c.items():
            f.write("%s%s == %s\n" % (x, n, v))
        f.write("=" * 77 + "\n")
    for emit in (False, True):
        if emit and x[0] != "T":
            continue
        with open(SP + m + ("G" if emit else "") + ".cfg", "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS\n  KeyBytes <- MCKeyBytes\n  SegLen <- MCSegLen\n")
            for n in c:
                f.write("  %s <- %s%s\n" % ("Pfxs" if n == "Prefixes" else n, x, n))
            f.write("  Emit = %s\n" % str(emit).upper())
            if not emit:
                f.write("INVARIANTS %s\n" % INV)
            f.write("CHECK_DEADLOCK FALSE\n")
    if x[0] == "T" and "graphs" in sys.argv:
        g = tour.derive(x)
        tour.save(x, g)
        print(x, len(g["states"]), "states", len(g["edges"]), "transitions", g["distinct"], g["wall"])
