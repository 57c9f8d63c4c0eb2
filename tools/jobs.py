"""Which harnesses decide which property, and within which bounds."""


class Job:
    def __init__(self, file, entry, params=None, shards=1, threaded=False, race=False, opts=None, reach=(), note="", defs=(), time=700,
                 steps=300000, samples=6, weight=1):
        self.file, self.entry, self.params, self.shards = file, entry, params or {}, shards
        self.threaded, self.race, self.opts, self.reach, self.note = threaded, race, opts or {}, list(reach), note
        self.defs, self.time, self.steps, self.samples, self.weight = list(defs), time, steps, samples, weight


MAXVALIDATE = {"quick": 60, "thorough": 400}
ASSUME = [
    "sequentially consistent memory; an atomic and a plain access to one location are not reported as racing with each other",
    "one compiler is encoded: clang 18, x86-64, libstdc++ 13 (counterexamples are confirmed with g++ -O0 or the instrumented clang build)",
    "hash tables keep one bucket and ordered maps are not rebalanced; the order of unordered maps is not part of any property",
    "allocation does not fail; elements throw only where the harness makes them throw",
    "self-move, negative capacities and use during destruction are unspecified",
    "the clock advances only when a timed wait times out",
]
PROPS = {}
NOTES = {}
NOT_APPLICABLE = {}


def P(prop, quick, thorough=(), assume=()):
    PROPS[prop] = {"quick": list(quick), "thorough": list(thorough), "assume": list(assume)}


C, K, B = "circular.cpp", "stack.cpp", "blocks.cpp"


def big(f, entry, params=None, shards=1, note=""):
    return Job(f, entry, params, shards=shards, defs=["-DSCALE=3000"], time=90, reach=["end"],
               note="capacities and sizes up to 100000 and more, past all 16-bit quantities: " + note)


# ---------------------------------------------------------------- CircularBuffer
P("C01", [
    Job(C, "c01_history", {"ops": 6}, shards=16, reach=["pushed", "refused", "popped", "toosmall", "end"],
        note="every history of 6 operations out of push (any size, any bytes), pop (any destination size), queries; every capacity up to the bound of the harness"),
    Job(C, "c01_wrap", {}, shards=4, reach=["end"], note="fill, drain, refill around the end of the ring: 2 phases of pushes with all sizes and cursor positions"),
    Job(C, "c01_raw", {}, shards=1, reach=["end"], note="CircularBufferRaw on caller storage"),
    big(C, "c01_history", {"ops": 4}, 2, "histories of 4 operations"), big(C, "c01_wrap", {"first": 2, "second": 2}, 2, "fill, drain, refill"),
], [
    Job(C, "c01_history", {"ops": 8}, shards=48, reach=["end"], note="histories of 8 operations", time=7000),
])
P("C02", [
    Job(C, "c02_space", {"ops": 6}, shards=16, reach=["end"], note="every int size (negative, zero, huge) after every history of 6 operations"),
    Job(C, "c02_ring", {}, shards=4, reach=["end"], note="every int size after 2 pushes, any pops and 1 push of all sizes: everything the ring can look like, including wrapped around the end"),
    Job(C, "c02_ring", {"first": 3, "second": 2, "hi": 12}, shards=4, reach=["end"], note="the same after 3 pushes, any pops and 2 pushes"),
    Job(C, "c02_default", {}, reach=[], note="default-constructed buffer"),
    Job(C, "c02_rounds", {}, reach=["end"], note="filled with a block of any size and emptied by pop or clear(), 12 rounds"),
    Job(C, "c02_rounds", {"two": 1, "rounds": 3}, reach=["end"], note="filled with blocks of any sizes and emptied by pop or clear(), 3 rounds"),
    big(C, "c02_ring", {}, 2, "after 2 pushes, any pops and 1 push"),
], [Job(C, "c02_space", {"ops": 7}, shards=32, note="histories of 7 operations", time=7000)])
RING, RING2 = {"first": 2, "second": 1}, {"first": 3, "second": 2}
RNOTE = "; after 2 pushes, any pops and 1 push of all sizes"
P("C03", [
    Job(C, "c03_resize", {}, shards=2, note="history, resize to any capacity, history"),
    Job(C, "c03_resize", RING, shards=4, note="resize to any capacity" + RNOTE),
    Job(C, "c03_resize2", {}, shards=2, note="two resizes"),
    Job(C, "c03_objects", {"ops": 2, "resized": 0}, shards=2, reach=["end"], note="histories of 2 operations on two buffers"),
    Job(C, "c03_objects", {}, shards=16, reach=["end"], note="a resize, a transfer, and another of these, on two buffers: resized, copied, moved, assigned, cleared, pushed to, popped from"),
    Job(C, "c03_resize2", RING, shards=4, note="two resizes" + RNOTE),
    Job(C, "c03_copy", {}, shards=4, note="copy construction, assignment onto any target, self-assignment"),
    Job(C, "c03_copy", RING, shards=4, note="copies" + RNOTE),
    Job(C, "c03_move", {}, shards=2, note="move construction and assignment, reuse of both operands"),
    Job(C, "c03_move", RING, shards=4, note="moves" + RNOTE),
    Job(C, "c03_clear", {}, note="clear"),
    Job(C, "c03_clear", RING, note="clear" + RNOTE),
    big(C, "c03_resize", RING, 4, "resize" + RNOTE), big(C, "c03_copy", {}, 2, "copies"), big(C, "c03_move", {}, 2, "moves"),
], [Job(C, "c03_resize", {"pre": 5, "post": 4}, shards=32, note="5 operations, resize, 4 operations", time=7000),
    Job(C, "c03_objects", {"resized": 0}, shards=32, note="histories of 3 operations on two buffers", time=7000),
    Job(C, "c03_resize", RING2, shards=32, note="3 pushes, pops, 2 pushes, resize", time=7000)])
# ---------------------------------------------------------------- StackBuffer
P("C04", [
    Job(K, "c04_history", {"ops": 6}, shards=16, reach=["pushed", "popped", "reversed", "end"], note="every history of 6 operations"),
    Job(K, "c04_deep", {}, shards=8, reach=["end"], note="several pushes of any sizes, reverse, pushes, pops"),
    Job(K, "c04_raw", {}, reach=["end"], note="StackBufferRaw on caller storage"),
    big(K, "c04_history", {"ops": 4}, 2, "histories of 4 operations"), big(K, "c04_raw", {"ops": 3}, 1, "raw variant"),
], [Job(K, "c04_history", {"ops": 7}, shards=48, note="histories of 7 operations", time=7000)])
P("C05", [
    Job(K, "c05_space", {"ops": 4}, shards=8, note="every int size after every history of 4 operations"),
    Job(K, "c05_deep", {}, shards=4, reach=["end"], note="3 pushes of all sizes, maybe reversed, any pops, 2 pushes, maybe reversed, everything popped"),
    Job(K, "c05_default", {}, note="default-constructed buffer"),
    Job(K, "c05_rounds", {}, reach=["end"], note="filled with a block of any size and emptied by pop or clear(), 12 rounds"),
    Job(K, "c05_rounds", {"two": 1, "rounds": 3}, reach=["end"], note="filled with blocks of any sizes and emptied by pop or clear(), 3 rounds"),
    big(K, "c05_space", {}, 2, "every int size after every history of 3 operations"),
], [Job(K, "c05_space", {"ops": 6}, shards=32, time=7000), Job(K, "c05_deep", {"first": 4, "second": 3, "cap": 96}, shards=32, time=7000)])
DEEP = {"first": 3, "second": 1}
DNOTE = "after 3 pushes of all sizes, maybe reversed, any pops and a push: "
P("C06", [Job(K, "c06_resize", {}, shards=4), Job(K, "c06_fits", {}), Job(K, "c06_resize2", {"pre": 1}, shards=4, note="0..1 block, two resizes"), Job(K, "c06_copy", {}, shards=8),
          Job(K, "c06_move", {}, shards=2), Job(K, "c06_swap", {}, shards=2),
          Job(K, "c06_objects", {"ops": 2, "resized": 0}, shards=2, reach=["end"], note="histories of 2 operations on two stacks"),
          Job(K, "c06_objects", {"filled": 0}, shards=24, reach=["end"], note="a resize, a transfer, and another of these, on two stacks: resized, copied, moved, assigned, swapped, cleared, pushed to, popped from"),
          Job(K, "c06_resize2", {"first": 2, "second": 1}, shards=8, note="after 2 pushes of all sizes, maybe reversed, any pops and a push: two resizes"),
          Job(K, "c06_copy", DEEP, shards=8, note=DNOTE + "copies"),
          Job(K, "c06_move", DEEP, shards=8, note=DNOTE + "moves"), Job(K, "c06_swap", DEEP, shards=8, note=DNOTE + "swap"),
          big(K, "c06_resize", {}, 2, "resize"), big(K, "c06_fits", {}, 1, "exact fits"), big(K, "c06_copy", {"pre": 2}, 2, "copies"),
          big(K, "c06_move", {}, 1, "moves"), big(K, "c06_swap", {}, 1, "swap")],
  [Job(K, "c06_resize", {"pre": 4}, shards=32, time=7000), Job(K, "c06_objects", {"resized": 0}, shards=32, note="histories of 3 operations on two stacks", time=7000),
   Job(K, "c06_resize2", DEEP, shards=32, note=DNOTE + "two resizes", time=7000)])
# ---------------------------------------------------------------- block containers


def nb(n, dq):
    return ["-DNB=%d" % n] + (["-DDQ"] if dq else [])


S5 = {"steps": 20000000}
for dq, (a, b, c) in ((0, ("C07", "C08", "C09")), (1, ("C10", "C11", "C12"))):
    q, t = [], []
    qb, tb = [], []
    qc, tc = [], []
    for n in (0, 1, 2, 3, 5):
        d = nb(n, dq)
        bs = "block size %d: " % (1 << n)
        full = 64 << n  # elements in a full block table
        small = n < 3
        edge = {"lo": full - 3, "hi": full + 3, "refill": full + 1}
        if n < 5:
            q.append(Job(B, "seq_history", {"ops": 4} if small else {"ops": 3, "starts": 12}, defs=d, shards=2 if small else 1, reach=["end"],
                         note=bs + "every start state and every history of %d operations" % (4 if small else 3), **S5))
            qb += [Job(B, "life_history", {"ops": 4} if small else {"ops": 3, "starts": 12}, defs=d, shards=2, reach=["end"],
                       note=bs + "lifetimes and addresses along every history of %d operations" % (4 if small else 3), **S5),
                   Job(B, "life_throw", {"ops": 4 if small else 3}, defs=d, reach=["end"], note=bs + "an element construction that throws", **S5)]
            qc += [Job(B, "copy_history", {}, defs=d, shards=2, reach=["end"], note=bs + "every source shape copied to every target shape", **S5),
                   Job(B, "move_history", {}, defs=d, shards=2, reach=["end"], note=bs + "every source shape moved to every target shape", **S5),
                   Job(B, "range_history", {}, defs=d, shards=1, reach=["end"], note=bs + "assign and move_assign: every target shape from arrays of 0 to 9 elements and from every source shape", **S5)]
            t.append(Job(B, "seq_history", {"ops": 5}, defs=d, shards=32, note=bs + "histories of 5 operations", time=7000, **S5))
            tb.append(Job(B, "life_history", {"ops": 5}, defs=d, shards=32, note=bs + "histories of 5 operations", time=7000, **S5))
        q += [Job(B, "seq_count", {"max": 24 if small else 3 * (1 << n) + 4}, defs=d, reach=["end"], note=bs + "constructed with any number of copies up to the bound", **S5),
              Job(B, "seq_deep", dict(edge), defs=d, reach=["end"], note=bs + "around a full table of 64 blocks: fill, empty, refill at either end", **S5),
              Job(B, "seq_slide", {"steps": int(full * 1.2)}, defs=d, reach=["end"], note=bs + "elements pass through in one direction and back, past the ends of the block table", **S5)]
        qb.append(Job(B, "life_deep", dict(edge), defs=d, shards=2 if n > 2 else 1, reach=["end"], note=bs + "lifetimes and addresses around a full block table", **S5))
        qc.append(Job(B, "copy_deep", dict(edge), defs=d, reach=["end"], note=bs + "copies and moves of a container around a full block table", **S5))
        if n < 2:
            q.append(Job(B, "seq_deep", {"lo": 2 * full - 3, "hi": 2 * full + 3, "refill": full + 1}, defs=d, reach=["end"], note=bs + "around a doubled block table", **S5))
            qb.append(Job(B, "life_deep", {"lo": 2 * full - 3, "hi": 2 * full + 3, "refill": full + 1}, defs=d, reach=["end"], note=bs + "lifetimes and addresses around a doubled block table", **S5))
    # every size from 1 on in small blocks, a table doubled twice, large blocks
    for n, lo, hi, refill, what in ((1, 1, 40, 20, "every size from 1 to 40"), (0, 253, 259, 70, "a block table doubled twice"), (8, 509, 515, 260, "two large blocks")):
        d, p_, bs = nb(n, dq), {"lo": lo, "hi": hi, "refill": refill}, "block size %d: " % (1 << n)
        q.append(Job(B, "seq_deep", p_, defs=d, reach=["end"], note=bs + what + ": fill, empty, refill at either end", **S5))
        qb.append(Job(B, "life_deep", p_, defs=d, reach=["end"], note=bs + what + ": lifetimes and addresses", **S5))
        qc.append(Job(B, "copy_deep", p_, defs=d, reach=["end"], note=bs + what + ": copies and moves", **S5))
    for n, lo, hi, refill in ((0, 60, 67, 70), (1, 124, 131, 70), (0, 125, 131, 70)):
        d, p_, bs = nb(n, dq), {"lo": lo, "hi": hi, "refill": refill, "counted": 1}, "block size %d: constructed with %d to %d copies, " % (1 << n, lo, hi)
        q.append(Job(B, "seq_deep", p_, defs=d, reach=["end"], note=bs + "then emptied and refilled at either end", **S5))
        qb.append(Job(B, "life_deep", p_, defs=d, reach=["end"], note=bs + "lifetimes and addresses", **S5))
    d = nb(1, dq) + ["-DALLOC"]
    qb += [Job(B, "life_history", {"ops": 4}, defs=d, shards=2, reach=["end"], note="an allocator of the user, block size 2: every history of 4 operations", **S5),
           Job(B, "life_deep", {"lo": 125, "hi": 131, "refill": 70}, defs=d, reach=["end"], note="an allocator of the user, block size 2: around a full block table", **S5)]
    qc += [Job(B, e, {}, defs=d, reach=["end"], note="an allocator of the user, block size 2: " + w, **S5) for e, w in (("copy_history", "copies"), ("move_history", "moves"), ("range_history", "ranges"))]
    q += [Job(B, "seq_slide", {"steps": 800}, defs=nb(8, dq), reach=["end"], note="block size 256: elements pass through in one direction and back", **S5),
          Job(B, "seq_count", {"max": 300}, defs=nb(8, dq), reach=["end"], note="block size 256: constructed with any number of copies up to 300", **S5)]
    for l, e in ((t, "seq_deep"), (tb, "life_deep"), (tc, "copy_deep")):
        l += [Job(B, e, {"lo": 1, "hi": 300, "refill": 150}, defs=nb(n, dq), shards=16, reach=["end"], time=7000, note="block size %d: every size from 1 to 300" % (1 << n), **S5) for n in (0, 1, 2, 3)]
        l += [Job(B, e, {"lo": k - 3, "hi": k + 3, "refill": 150}, defs=nb(0, dq), shards=4, reach=["end"], time=7000, note="block size 1: around %d elements" % k, **S5) for k in (512, 1024, 2048)]
    P(a, q, t)
    P(b, qb, tb)
    P(c, qc, tc)
q = []
for dq in (0, 1):
    for n in (0, 1, 2, 3, 5):
        d, bs = nb(n, dq), "block size %d: " % (1 << n)
        if n < 5:
            q += [Job(B, "iter_walk", {}, defs=d, reach=["end"], note=bs + "every history of 3 operations, then both directions", **S5),
                  Job(B, "iter_algorithms", {}, defs=d, reach=["end"], note=bs + "standard algorithms", **S5)]
        q += [Job(B, "iter_arith", {"max": (9, 9, 11, 21, 40)[min(n, 4)]}, defs=d, reach=["end"], note=bs + "any iterator moved by any distance within the container", **S5),
              Job(B, "iter_deep", {"lo": (64 << n) - 3, "hi": (64 << n) + 3}, defs=d, reach=["end"], note=bs + "iteration around a full block table", **S5)]
    for n, lo, hi in ((1, 1, 40), (0, 253, 259), (8, 509, 515)):
        q.append(Job(B, "iter_deep", {"lo": lo, "hi": hi}, defs=nb(n, dq), reach=["end"], note="block size %d: iteration at %d to %d elements" % (1 << n, lo, hi), **S5))
    for n, lo, hi in ((0, 60, 67), (1, 124, 131)):
        q.append(Job(B, "iter_deep", {"lo": lo, "hi": hi, "counted": 1}, defs=nb(n, dq), reach=["end"], note="block size %d: iteration of a container constructed with %d to %d copies" % (1 << n, lo, hi), **S5))
P("C13", q, [Job(B, "iter_deep", {"lo": 1, "hi": 300}, defs=nb(n, dq), shards=16, reach=["end"], time=7000, note="block size %d: iteration at every size from 1 to 300" % (1 << n), **S5)
             for dq in (0, 1) for n in (0, 1, 2, 3)])
# ---------------------------------------------------------------- mapped vectors
MP, D = "mapped.cpp", "dual.cpp"
MANYNOTE = "elements with concrete keys and several terms, one removed by index or by an arbitrary key, then copied or moved, removed from and inserted into"


def many(f, entry, d, n, s, stable):
    q = []
    for lo, hi, bo, sh in ((9, 12, 0, 1), (32, 34, 5, 1)) + (((64, 66, 0, 4 if s else 1),) if stable or s else ()):
        q.append(Job(f, entry, {"lo": lo, "hi": hi}, defs=d + ["-DMANY=180", "-DBO=%d" % bo], shards=sh, reach=["removed", "end"], samples=2,
                     note=n + "%d to %d %s; block size %d" % (lo, hi, MANYNOTE, 1 << bo), **S5))
    t = [Job(f, entry, {"lo": 128, "hi": 130}, defs=d + ["-DMANY=180", "-DBO=0"], shards=16, reach=["removed", "end"], time=7000, note=n + "128 to 130 " + MANYNOTE, **S5),
         Job(f, entry, {"lo": 1, "hi": 70}, defs=d + ["-DMANY=180", "-DBO=1"], shards=32, reach=["removed", "end"], time=7000, note=n + "1 to 70 " + MANYNOTE, **S5)]
    return q, t


KEYS = ("unsigned key (hashed)", "struct key (ordered map)", "string key (hashed)")


def mapped(kind, key, stable, light=False):
    d = ["-DKIND=%d" % kind, "-DKEY=%d" % key, "-DSTABLE=%d" % stable]
    n = "%s, %s references; " % (KEYS[key], "stable" if stable else "unstable")
    s = key == 2
    q = [Job(MP, "map_history", {"ops": 2, "before": 1 if key else 2, "lens": 2}, defs=d, shards=2,
             reach=["assigned", "present", "removed", "end"] + ([] if kind == 1 else ["term"]),
             note=n + "0..2 insertions and then every history of 2 operations, all keys"),
         Job(MP, "map_remove", {"elems": 2 if key else 3, "lens": 2}, defs=d, shards=4 if key == 1 else 1, reach=["removed", "end"],
             note=n + "several elements and an added term, two removals, an insertion, all keys and indices"),
         Job(MP, "map_views", {"before": 2, "lens": 1}, defs=d, reach=["end"], note=n + "iteration, apply, modify, transform, back, at"),
         Job(MP, "map_copy", {"before": 1, "lens": 2 if kind == 1 else 1}, defs=d, reach=["end"], shards=2, note=n + "copies, moves, assignments")]
    mq, mt = many(MP, "map_many", d, n, s, stable)
    if s:
        q.append(Job(MP, "map_history", {"ops": 2, "before": 1, "lens": 3}, defs=d, shards=1, reach=["end"], note=n + "with empty, short and long names"))
    t = [Job(MP, "map_history", {"ops": 3, "before": 2, "lens": 2}, defs=d, shards=16, note=n + "0..2 insertions and 3 operations", time=7000),
         Job(MP, "map_remove", {"elems": 3, "lens": 2, "terms": 2}, defs=d, shards=16, time=7000, note=n + "3 elements, 2 terms"),
         Job(MP, "map_copy", {"before": 2, "lens": 2}, defs=d, shards=16, time=7000, note=n + "copies with 2 elements")]
    return q + mq, t + mt


def dual(kind, key, stable):
    d = ["-DKIND=%d" % kind, "-DKEY=%d" % key, "-DSTABLE=%d" % stable]
    n = "%s and unsigned long key, %s references; " % (KEYS[key], "stable" if stable else "unstable")
    q = [Job(D, "dual_history", {"ops": 1, "before": 2}, defs=d, reach=["present", "assigned", "removed", "end"] + ([] if kind == 2 else ["term"]),
             note=n + "0..2 insertions with one or both keys and then every operation, all keys"),
         Job(D, "dual_history", {"ops": 2, "before": 1, "lens": 1}, defs=d, reach=["end"], shards=2, note=n + "0..1 insertions and then every 2 operations"),
         Job(D, "dual_remove", {"elems": 3, "lens": 1}, defs=d, reach=["removed", "end"], note=n + "3 elements, an added term, a removal"),
         Job(D, "dual_remove", {"elems": 2, "lens": 1, "twice": 0 if key == 1 else 1, "again": 1}, defs=d, reach=["removed", "end"], note=n + "2 elements, an added term, two removals, an insertion"),
         Job(D, "dual_views", {"before": 2, "lens": 1}, defs=d, reach=["end"], note=n + "iteration, apply, modify, transform, back, at"),
         Job(D, "dual_copy", {"before": 1, "lens": 2 if kind == 1 else 1}, defs=d, reach=["end"], note=n + "copies, moves, assignments")]
    t = [Job(D, "dual_history", {"ops": 2, "before": 2}, defs=d, shards=16, note=n + "0..2 insertions and 2 operations", time=7000),
         Job(D, "dual_history", {"ops": 3, "before": 0, "lens": 1}, defs=d, shards=16, note=n + "3 operations", time=7000),
         Job(D, "dual_copy", {"before": 2, "lens": 2}, defs=d, shards=16, time=7000, note=n + "copies with 2 elements")]
    mq, mt = many(D, "dual_many", d, n, key == 2, stable)
    return q + mq, t + mt


def several(*parts):
    q, t = [], []
    for a, b in parts:
        q += a
        t += b
    return q, t


P("C14", *several(*[mapped(0, k, 0) for k in (0, 1, 2)]))
P("C15", *several(*[mapped(0, k, 1) for k in (0, 1, 2)]))
P("C16", *several(*[mapped(1, 2, s) for s in (1, 0)]))
P("C17", *several(*[mapped(2, k, 0) for k in (0, 1, 2)]))
P("C18", *several(*[dual(0, k, s) for k, s in ((0, 0), (1, 0), (2, 0), (0, 1), (2, 1))]))
P("C19", *several(*[dual(1, 2, s) for s in (1, 0)]))
P("C20", *several(*[dual(2, k, 0) for k in (0, 1, 2)]))
P("C32", [Job("mapops.cpp", e, {"entries": 3}, reach=["present", "absent"], note="maps with up to 3 entries, all keys, values, defaults")
          for e in ("find_map_int", "find_map_string", "find_map_struct", "find_hash_int", "find_hash_string")],
  [Job("mapops.cpp", e, {"entries": 5}, shards=8, reach=["present", "absent"], note="maps with up to 5 entries", time=7000)
   for e in ("find_map_int", "find_map_string", "find_map_struct", "find_hash_int", "find_hash_string")])

# ---------------------------------------------------------------- queues
QU = "queues.cpp"
QN = ("SimpleQueue", "BlockingQueue", "BlockingPriorityQueue")


def qj(q, entry, params=None, shards=1, opts=None, note="", time=700, **kw):
    return Job(QU, entry, params, shards=shards, threaded=True, opts=opts, defs=["-DQ=%d" % q], time=time, reach=["end"], note=QN[q] + ": " + note, samples=3, **kw)


ALLINT = ", all interleavings, all payloads"


def asym(q, p, c, shards=2, **kw):
    """producers with p[i] pushes of one kind each, consumers with c[i] tries each, over 0 or 1 element"""
    par = {"premax": 1}
    par.update({"p%d" % (i + 1): n for i, n in enumerate(p)})
    par.update({"c%d" % (i + 1): n for i, n in enumerate(c)})
    par.update({k: kw.pop(k) for k in ("state", "safety") if k in kw})
    return qj(q, "q_asym", par, shards, {}, note="producers with %s pushes of every kind, consumers with %s tries" % (" and ".join(map(str, p)), " and ".join(map(str, c))) + ALLINT, **kw)


P("C21", [
    asym(0, (2, 2), (2,)), asym(0, (3, 2), (3,)), asym(0, (2, 2, 1), (1,)), asym(0, (4, 1), (4,)),
    qj(0, "q_any", {"threads": 3, "ops": 1, "premax": 1}, 4, {}, note="3 threads of 1 operation of every kind including peek, size, reserve, clear" + ALLINT),
    qj(0, "q_conc", {"threads": 2, "ops": 2}, 8, note="2 threads of 2 operations out of push, emplace, pushVector, pop over 0..2 elements" + ALLINT),
    qj(0, "q_conc", {"threads": 3, "ops": 1}, 4, note="3 threads of 1 operation" + ALLINT),
    qj(0, "q_concn", {"threads": 3, "ops": 2}, 8, note="3 threads of 2 operations out of push, pop over 0..2 elements" + ALLINT),
    qj(0, "q_concn", {"threads": 2, "ops": 3}, 4, note="2 threads of 3 operations out of push, pop" + ALLINT),
], [
    asym(0, (3, 3), (3,), 8, time=7000), asym(0, (2, 2), (2, 2), 8, time=7000), asym(0, (2, 2, 2), (2,), 16, time=7000), asym(0, (3, 3), (2, 2), 32, time=7000),
    qj(0, "q_concn", {"threads": 2, "ops": 4}, 32, note="2 threads of 4 operations" + ALLINT, time=7000),
    qj(0, "q_conc", {"threads": 2, "ops": 3}, 32, note="2 threads of 3 operations of all kinds" + ALLINT, time=7000),
    qj(0, "q_concn", {"threads": 4, "ops": 1, "premax": 3}, 32, note="4 threads" + ALLINT, time=7000),
])
SEQ = [lambda q: qj(q, "q_seq", {"ops": 5}, 8, note="every history of 5 operations"), lambda q: qj(q, "q_drop", {}, note="destruction with elements"),
       lambda q: qj(q, "q_move", {"ops": 4, "post": 2}, 2, note="4 operations, move construction or assignment, 2 operations on either queue")]
SEQT = [lambda q: qj(q, "q_seq", {"ops": 6}, 48, note="every history of 6 operations", time=7000),
        lambda q: qj(q, "q_move", {"ops": 6, "post": 3}, 32, note="6 operations, a move, 3 operations", time=7000)]
P("C22", [f(0) for f in SEQ] + [qj(0, "q_concn", {"threads": 2, "ops": 2, "state": 1, "safety": 0}, 4, note="state after 2 threads of 2 operations" + ALLINT),
                                qj(0, "q_concn", {"threads": 3, "ops": 1, "state": 1, "safety": 0}, 4, note="state after 3 threads" + ALLINT),
                                asym(0, (2, 2), (2,), state=1, safety=0)],
  [f(0) for f in SEQT] + [qj(0, "q_concn", {"threads": 3, "ops": 2, "state": 1, "safety": 0}, 16, note="state after 3 threads of 2 operations" + ALLINT, time=7000)])
SP = {"spurious": 1, "timeouts": 1}


def pc(q, p, n, c, m, shards, opts=None, safety=1, kinds=3, premax=1, emplace=0, **kw):
    return qj(q, "q_pc", {"producers": p, "pushes": n, "consumers": c, "pops": m, "safety": safety, "popkinds": kinds, "premax": premax, "emplace": emplace}, shards, opts,
              note="%d producers of %d %s, %d consumers of %d pops%s" % (p, n, "emplaces" if emplace else "pushes", c, m, ALLINT), **kw)


P("C23", [
    asym(1, (2, 2), (2,)), asym(1, (3, 2), (3,)), asym(1, (2, 2, 1), (1,)), asym(1, (4, 1), (4,)),
    qj(1, "q_any", {"threads": 3, "ops": 1, "premax": 1}, 4, {}, note="3 threads of 1 operation of every kind including peek, size, reserve, clear" + ALLINT),
    qj(1, "q_conc", {"threads": 2, "ops": 2}, 8, SP, note="2 threads of 2 operations of all kinds over 0..2 elements" + ALLINT),
    qj(1, "q_conc", {"threads": 3, "ops": 1}, 4, SP, note="3 threads of 1 operation of all kinds" + ALLINT),
    qj(1, "q_concn", {"threads": 3, "ops": 2, "premax": 1}, 16, {}, note="3 threads of 2 operations out of push, pop, try_pop" + ALLINT),
    pc(1, 2, 2, 1, 3, 4, kinds=1), pc(1, 1, 3, 1, 3, 8, kinds=2), pc(1, 1, 2, 2, 1, 2, kinds=4),
], [
    asym(1, (3, 3), (3,), 8, time=7000), asym(1, (2, 2), (2, 2), 8, time=7000), asym(1, (2, 2, 2), (2,), 16, time=7000), asym(1, (3, 3), (2, 2), 32, time=7000),
    qj(1, "q_concn", {"threads": 2, "ops": 4}, 32, SP, note="2 threads of 4 operations" + ALLINT, time=7000),
    qj(1, "q_conc", {"threads": 2, "ops": 3}, 32, SP, note="2 threads of 3 operations of all kinds" + ALLINT, time=7000),
    pc(1, 2, 2, 2, 2, 16, time=7000),
])
P("C24", [
    qj(1, "q_wake", {"threads": 2, "ops": 2, "kinds": 7}, 8, SP, note="2 threads of 2 operations of all kinds" + ALLINT),
    qj(1, "q_wake", {"threads": 3, "ops": 1, "kinds": 7}, 4, SP, note="3 threads of 1 operation of all kinds" + ALLINT),
    pc(1, 1, 2, 2, 1, 8, SP, 0, kinds=5, premax=2), pc(1, 1, 3, 2, 2, 8, {}, 0, kinds=2), pc(1, 2, 1, 2, 1, 4, SP, 0, kinds=3), pc(1, 1, 3, 3, 1, 4, {}, 0, kinds=1),
    pc(1, 1, 2, 2, 1, 4, SP, 0, kinds=2, premax=1, emplace=1), pc(1, 2, 1, 2, 1, 4, {}, 0, kinds=1, emplace=1),
], [
    qj(1, "q_concn", {"threads": 3, "ops": 2, "safety": 0}, 16, {"spurious": 1}, note="3 threads of 2 operations out of push, pop, try_pop" + ALLINT, time=7000),
    qj(1, "q_wake", {"threads": 2, "ops": 3, "kinds": 7}, 32, SP, note="2 threads of 3 operations of all kinds" + ALLINT, time=7000),
    pc(1, 2, 2, 2, 2, 16, SP, 0, kinds=4, time=7000),
])
P("C25", [
    asym(2, (2, 2), (2,), 4), asym(2, (3, 1), (3,), 4), asym(2, (1, 1, 1), (1,), 4),
    qj(2, "q_any", {"threads": 3, "ops": 1, "premax": 1}, 4, {}, note="3 threads of 1 operation of every kind including peek, size, reserve, clear" + ALLINT),
    qj(2, "q_conc", {"threads": 2, "ops": 2}, 16, {}, note="2 threads of 2 operations of all kinds over 0..2 elements" + ALLINT),
    qj(2, "q_conc", {"threads": 3, "ops": 1}, 4, SP, note="3 threads of 1 operation of all kinds" + ALLINT),
    qj(2, "q_concn", {"threads": 2, "ops": 2, "prepri": 1}, 4, SP, note="starting with a priority element" + ALLINT),
    pc(2, 1, 2, 2, 1, 8, kinds=4), pc(2, 1, 3, 1, 3, 8, premax=0), pc(2, 2, 1, 1, 2, 8), pc(2, 2, 2, 1, 3, 16, {}, kinds=1, premax=0),
], [
    asym(2, (3, 2), (3,), 16, time=7000), asym(2, (4, 1), (4,), 16, time=7000), asym(2, (2, 2), (2, 2), 32, time=7000), asym(2, (2, 2, 1), (1,), 32, time=7000),
    qj(2, "q_concn", {"threads": 3, "ops": 2}, 48, {}, note="3 threads of 2 operations out of push, pushPriority, pop, try_pop" + ALLINT, time=7000),
    qj(2, "q_concn", {"threads": 2, "ops": 3}, 32, SP, note="2 threads of 3 operations" + ALLINT, time=7000),
    pc(2, 2, 2, 1, 2, 16, SP, kinds=4, time=7000),
])
P("C26", [
    qj(2, "q_wake", {"threads": 2, "ops": 2, "kinds": 7}, 16, SP, note="2 threads of 2 operations of all kinds" + ALLINT),
    qj(2, "q_wake", {"threads": 3, "ops": 1, "kinds": 9}, 4, SP, note="3 threads of 1 operation of all kinds" + ALLINT),
    pc(2, 1, 2, 2, 1, 16, SP, 0, kinds=5), pc(2, 2, 1, 2, 1, 8, {}, 0, kinds=2), pc(2, 1, 3, 2, 1, 8, {}, 0, kinds=2),
    pc(2, 1, 2, 2, 1, 8, {}, 0, kinds=2, emplace=1), pc(2, 2, 1, 2, 1, 8, {}, 0, kinds=1, emplace=1),
], [
    qj(2, "q_concn", {"threads": 3, "ops": 2, "safety": 0}, 48, {"spurious": 1}, note="3 threads of 2 operations out of push, pushPriority, pop, try_pop" + ALLINT, time=7000),
    qj(2, "q_wake", {"threads": 2, "ops": 3, "kinds": 9}, 32, SP, note="2 threads of 3 operations of all kinds" + ALLINT, time=7000),
    pc(2, 1, 3, 2, 2, 16, SP, 0, kinds=3, time=7000),
])
P("C33", [f(q) for q in (1, 2) for f in SEQ] + [
    qj(q, "q_concn", {"threads": t, "ops": o, "state": 1, "safety": 0, "emplace": e}, 2, SP, note="state after %d threads of %d operations" % (t, o) + ALLINT)
    for q in (1, 2) for t, o in ((2, 2), (3, 1)) for e in (0, 1)] + [
    asym(q, (2, 2), (2,), 2, state=1, safety=0) for q in (1, 2)], [f(q) for q in (1, 2) for f in SEQT])

# ---------------------------------------------------------------- AirLock
AL = "airlock.cpp"
MO = ["-DMOVEONLY"]


def al(entry, params, shards=1, opts=None, note="", defs=(), **kw):
    return Job(AL, entry, params, shards=shards, threaded=True, opts=opts, defs=defs, reach=["end"], samples=3, note=("move-only items: " if defs else "") + note, **kw)


P("C27", [
    al("lock_seq", {"ops": 7}, note="every history of 7 operations of one thread"),
    al("lock_seq", {"ops": 7}, defs=MO, note="every history of 7 operations of one thread"),
    al("lock_conc", {"threads": 2, "ops": 1, "kinds": 6}, 2, {"spurious": 1}, note="2 threads of 1 operation of all kinds and an unloading thread" + ALLINT),
    al("lock_conc", {"threads": 2, "ops": 2, "kinds": 3}, 8, {}, note="2 threads of 2 operations out of load, try_load, try_unload and an unloading thread" + ALLINT),
    al("lock_conc", {"threads": 3, "ops": 1, "kinds": 3}, 8, {"spurious": 1}, note="3 threads of 1 operation out of load, try_load, try_unload and an unloading thread" + ALLINT),
    al("lock_conc", {"threads": 2, "ops": 1, "kinds": 4}, 2, {"spurious": 1}, defs=MO, note="2 threads of 1 operation and an unloading thread" + ALLINT),
], [
    al("lock_conc", {"threads": 2, "ops": 2, "kinds": 6}, 32, {"spurious": 1}, note="2 threads of 2 operations of all kinds" + ALLINT, time=7000),
    al("lock_conc", {"threads": 3, "ops": 1, "kinds": 6}, 16, {"spurious": 1}, note="3 threads of 1 operation of all kinds" + ALLINT, time=7000),
    al("lock_conc", {"threads": 2, "ops": 3, "kinds": 3}, 32, {}, note="2 threads of 3 operations" + ALLINT, time=7000),
    al("lock_seq", {"ops": 9}, 16, note="every history of 9 operations of one thread", time=7000),
])
# ---------------------------------------------------------------- WorkQueue, WorkBlock
WQ, WB = "workqueue.cpp", "workblock.cpp"
ONEORDER = {"timeouts": 0, "spurious": 0, "preempt": 0, "chain": 1}


def wq(entry, params, shards=1, opts=None, note="", **kw):
    kw.setdefault("samples", 3)
    return Job(WQ, entry, params, shards=shards, threaded=True, opts=ONEORDER if opts is None else opts, reach=["end"], note=note, **kw)


P("C28", [
    wq("wq_order", {"adds": 2, "ops": 3, "ratio": 0}, 4, note="2 additions and 3 operations out of getWorkBlock, addWorkBlock of one block or a vector, every priority"),
    wq("wq_order", {"adds": 3, "ops": 2, "ratio": 1}, 4, note="3 additions and 2 operations, every ratio including 0 and negative ones"),
    wq("wq_rotate", {"maxratio": 3, "medium": 7}, 8, note="0..2 early medium blocks, 1..3 low and 0..6 medium blocks, every ratio 1..3, a change of ratio or a high block in between"),
    wq("wq_exec_order", {"adds": 5}, 4, note="5 additions executed by the worker, every ratio"),
], [
    wq("wq_order", {"adds": 3, "ops": 4}, 48, note="3 additions and 4 operations", time=7000),
    wq("wq_rotate", {"maxratio": 6, "medium": 14, "first": 7}, 48, note="longer runs, ratios 1..6", time=7000),
    wq("wq_exec_order", {"adds": 7}, 32, note="7 additions executed by the worker", time=7000),
])


def once(shards, opts, note, **p):
    t = p.pop("time", 700)
    q = {"threads": 0, "ops": 1, "workers": 1, "early": 0, "kinds": 1, "prios": 1}
    q.update(p)
    return wq("wq_once", q, shards, opts, note=note, time=t)


NT = {"timeouts": 0, "spurious": 0}


def pre(n, **kw):
    return dict(NT, preempt=n, **kw)


P("C29", [
    once(1, {}, "no workers: 2 additions of all kinds and priorities", workers=0, ops=2, kinds=5, prios=4),
    once(8, NT, "1 worker: every kind of addition and priority, waits for the blocks, all interleavings", kinds=5, prios=4),
    once(8, NT, "1 worker: 2 additions, waits for the blocks, all interleavings", ops=2, prios=1, kinds=2),
    once(8, {"timeouts": 1, "spurious": 1}, "1 worker: an addition, closed at any moment, early timeouts and spurious wakeups, all interleavings", early=1, kinds=2, prios=2),
    once(4, pre(2), "2 workers: an addition, waits for the block, up to 2 preemptions", workers=2, kinds=2, prios=2),
    once(4, pre(1), "2 workers: 2 additions, up to 1 preemption", workers=2, ops=2, prios=2),
    once(4, pre(1), "2 workers: 2 additions, closed at any moment, up to 1 preemption", workers=2, ops=2, early=1),
    once(4, pre(3), "2 adding threads, 1 worker, up to 3 preemptions", threads=2, prios=2),
    wq("wq_any", {"threads": 2}, 4, pre(1), note="1 worker, 2 threads of 1 operation of every kind, close at any moment, up to 1 preemption"),
    wq("wq_pair", {"workers": 2, "prios": 3}, 4, pre(1), note="2 idle workers, 2 blocks of any priority that wait for each other, up to 1 preemption"),
    wq("wq_nest", {"workers": 0, "nests": 2}, 1, note="no workers: 2 blocks that add 1 or 2 blocks of any priority, as a vector or one by one, before or after their own work"),
    wq("wq_nest", {"workers": 1}, 2, pre(2), note="1 worker: a block that adds 1 or 2 blocks, up to 2 preemptions"),
    wq("wq_nest", {"workers": 2, "prios": 1}, 2, pre(1), note="2 workers: a block that adds 1 or 2 blocks, up to 1 preemption"),
    wq("wq_nest", {"workers": 1, "prios": 1, "early": 1}, 2, {"timeouts": 1, "spurious": 1, "preempt": 2}, note="1 worker: a block that adds 1 or 2 blocks, closed at any moment, up to 2 preemptions"),
    wq("wq_pair", {"workers": 3, "prios": 1}, 4, pre(0), note="3 idle workers, 3 blocks that wait for each other, no preemption"),
], [
    wq("wq_nest", {"workers": 1}, 8, NT, note="1 worker: a block that adds 1 or 2 blocks, all interleavings", time=7000),
    wq("wq_nest", {"workers": 1, "prios": 2, "early": 1}, 8, {"timeouts": 1, "spurious": 1}, note="1 worker: a block that adds 1 or 2 blocks, closed at any moment, all interleavings", time=7000),
    wq("wq_pair", {"workers": 2, "prios": 1}, 8, pre(3), note="2 idle workers, 2 blocks that wait for each other, as a vector or one by one, up to 3 preemptions", time=7000),
    wq("wq_pair", {"workers": 3, "prios": 1}, 8, pre(1), note="3 idle workers, 3 blocks that wait for each other, up to 1 preemption", time=7000),
    wq("wq_any", {"threads": 2}, 16, pre(3), note="1 worker, 2 threads of 1 operation of every kind, close at any moment, up to 3 preemptions", time=7000),
    once(32, NT, "1 worker: 2 additions, all interleavings", ops=2, kinds=3, prios=3, time=7000),
    once(32, {"timeouts": 1, "spurious": 1}, "1 worker: 2 additions, closed at any moment", ops=2, early=1, kinds=2, prios=2, time=7000),
    once(32, pre(3), "2 workers: 2 additions, up to 3 preemptions", workers=2, ops=2, time=7000),
    once(32, NT, "2 adding threads, 1 worker, all interleavings", threads=2, kinds=2, prios=2, time=7000),
])


def wb(ret, entry, params=None, shards=1, threaded=False, **kw):
    n = ("unsigned", "no", "struct")[ret] + " result: "
    return Job(WB, entry, params, shards=shards, threaded=threaded, defs=["-DRET=%d" % ret], reach=["end"], note=n + kw.pop("note", ""), **kw)


P("C30", [wb(r, "block_history", {"ops": 4}, 4, note="every construction and every history of 4 operations, every value and exception") for r in (0, 1, 2)] +
  [wb(r, "block_wait", {"waiters": 2}, threaded=True, samples=3, note="2 threads wait for the result" + ALLINT) for r in (0, 1, 2)] + [wb(0, "block_null")],
  [wb(r, "block_history", {"ops": 5}, 32, note="every history of 5 operations", time=7000) for r in (0, 1, 2)])

# ---------------------------------------------------------------- races


def racy(j):
    j.race = True
    j.samples = 2
    j.note = "data races: " + j.note
    return j


P("C31", [racy(j) for j in [
    qj(q, "q_any", {"threads": 2, "ops": 1}, 1, SP, note="2 threads of 1 operation of every kind" + ALLINT) for q in (0, 1, 2)] + [
    qj(q, "q_any", {"threads": 3, "ops": 1, "premax": 1}, 4, {}, note="3 threads of 1 operation of every kind" + ALLINT) for q in (0, 1, 2)] + [
    qj(q, "q_concn", {"threads": 2, "ops": 2}, 4, SP, note="2 threads of 2 operations" + ALLINT) for q in (0, 1, 2)] + [
    qj(q, "q_concn", {"threads": 3, "ops": 1}, 2, {}, note="3 threads of 1 operation" + ALLINT) for q in (0, 1, 2)] + [
    asym(q, p, c, 1) for q in (0, 1, 2) for p, c in (((2, 1), (1,)), ((2, 2), (1,)), ((1, 1), (1, 1)))] + [
    pc(1, 1, 2, 1, 2, 2), pc(2, 1, 2, 1, 2, 2),
    al("lock_conc", {"threads": 2, "ops": 1, "kinds": 6}, 2, {}, note="2 threads of 1 operation of all kinds and an unloading thread" + ALLINT),
    wq("wq_any", {"threads": 2}, 4, pre(1), note="1 worker, 2 threads of 1 operation of every kind, up to 1 preemption"),
    once(4, NT, "1 worker: an addition, all interleavings", kinds=2, prios=4),
    once(4, pre(1), "2 workers: 2 additions, up to 1 preemption", workers=2, ops=2),
    once(4, pre(2), "2 adding threads, 1 worker, up to 2 preemptions", threads=2, prios=2),
]], [racy(j) for j in [
    qj(q, "q_conc", {"threads": 2, "ops": 2}, 16, {}, note="2 threads of 2 operations of all kinds" + ALLINT, time=7000) for q in (0, 1, 2)] + [
    al("lock_conc", {"threads": 2, "ops": 2, "kinds": 3}, 16, {}, note="2 threads of 2 operations" + ALLINT, time=7000),
    once(32, NT, "1 worker: 2 additions, all interleavings", ops=2, kinds=2, prios=2, time=7000),
    wq("wq_any", {"threads": 2, "workers": 2}, 16, pre(2), note="2 workers, 2 threads of 1 operation of every kind, up to 2 preemptions", time=7000)]])
