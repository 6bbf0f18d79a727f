#!/usr/bin/env python3
"""Makes the library of digests: runs TLC on every case of every family (or of
those named), and writes lib/FAMILY.SHARD.dg and lib/index.json.  Shards whose
cases and whose specification are unchanged are left as they are."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import core, lib, families as fm


def main(argv):
    force = "--force" in argv
    only = [a for a in argv if not a.startswith("-")]
    os.makedirs(lib.DIR, exist_ok=True)
    ix = lib.index()
    h = lib.spec_hash()
    if ix.get("spec") != h:
        if ix and "--restamp" not in argv and not force:
            sys.exit("the specification changed: --force makes all again, --restamp keeps what there is (the checks test samples of it)")
        ix = dict(spec=h, shards={} if force else ix.get("shards", {}))
    jobs = [(f, k) for f in fm.FAMILIES if not only or f in only for k in range(fm.FAMILIES[f].shards)]
    jobs.sort(key=lambda j: (len(j[0]) == 3 and j[0][1:].isdigit(), j[0] == "tiny"))
    exe = core.build_driver()
    for f, k in jobs:
        t0 = time.time()
        name = "%s.%d" % (f, k)
        rows = lib.make((f, k))[2]
        s = lib.sha(rows)
        e = ix["shards"].get(name)
        if e and e["sha"] == s and os.path.exists(os.path.join(lib.DIR, name + ".dg")) and not (force and only):
            continue
        cases = lib.dicts(f, rows)
        out = bytearray()
        part = os.path.join(lib.DIR, name + ".part")
        for a in range(0, len(cases), lib.SHARD):
            cs = cases[a:a + lib.SHARD]
            sp = core.Spec()
            so = lib.spec_outcomes(sp, f, cs)
            lack = [c for c in cs if c["id"] not in so]
            if lack:
                sys.exit("no outcome for %d cases of %s, such as %r" % (len(lack), name, lack[0]["src"]))
            texts = [lib.canon(c, so[c["id"]]) for c in cs]
            ds = [lib.crc(t) for t in texts]
            got = lib.code_digests(exe, cs)
            bad = [(c, t) for c, t, d, g in zip(cs, texts, ds, got) if d != g]
            if bad:
                print("%s: %d of %d differ from the code" % (name, len(bad), len(cs)), flush=True)
                gt = lib.code_digests(exe, [c for c, t in bad[:12]], True)
                for (c, t), g in zip(bad[:12], gt):
                    print("  %r\n    spec %r\n    code %s" % ((c["mode"], c["nvim"], c["src"], c["pol"]), t[:600], str(g)[:600]), flush=True)
            for d in ds:
                out += d.to_bytes(3, "big")
            del so
        open(part, "wb").write(out)
        os.replace(part, os.path.join(lib.DIR, name + ".dg"))
        ix["shards"][name] = dict(n=len(cases), sha=s)
        tmp = os.path.join(lib.DIR, "index.json.part")
        json.dump(ix, open(tmp, "w"), indent=0, sort_keys=True)
        os.replace(tmp, os.path.join(lib.DIR, "index.json"))
        print("%s: %d cases, %.0f s" % (name, len(cases), time.time() - t0), flush=True)


main(sys.argv[1:])
