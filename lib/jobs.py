"""What is explored for each property: (name, entry point, configuration).

A configuration is a list of numbers the harness reads (see harness/src); every
one of them is a *shape* (tree, operations, bounds).  All other choices -
positions, lengths, keys, element kinds, which leaf, how much of a drain is
consumed - are symbolic and decided by the solver."""

CONTENT, AGG, STRUCT, NAV, QUERY, HANDLE, REPORT, SELF = 1, 2, 4, 8, 16, 32, 64, 128
RUN, RUNMAX, CHUNK, CHUNKMAX, STYLED, STYLEDMAX = range(6)     # element kind x (diff caches | recomputed maxima)


def op(code, par=0):
    return code + 32 * par


INS = op(0)            # insert_by_path: every kind of element, every cursor form
INS1 = op(0, 1)        # only unmergeable elements at canonical cursors
PUSH, PREP, INSQ = op(1), op(2), op(3)
INSQ1 = op(3, 1)
PUSH2, PREP2 = op(1, 2), op(2, 2)     # elements that merge with nothing or continue their neighbour
PUSH1, PREP1 = op(1, 1), op(2, 1)     # only elements that merge with nothing
DRAIN = op(4, 3)       # drain, any amount consumed
DRAIN_ALL = op(4)      # drain, all consumed
DRAIN_NONE = op(4, 1)  # drain, dropped at once
DRAIN_FORMS = op(4, 7)
DRAIN_ALL_FORMS = op(4, 4)
DRAINQ = op(5, 3)
REMOVE = op(6)


def MANY(k):           # batch of k, all kinds of elements
    return op(7, k)


def MANY1(k):          # batch of k unmergeable elements
    return op(7, 64 + k)


UPDATE, UPDATE_FORMS = op(8), op(8, 4)
UPD_ANN, UPD_CLEAR, UPD_NOP = op(8, 1), op(8, 2), op(8, 3)
UPD_ANN_FORMS, UPD_CLEAR_FORMS = op(8, 5), op(8, 6)
LEAF = op(9)


def LEAFV(v):
    return op(9, v + 1)


SEARCH = op(10)


def SEARCHV(v):
    return op(10, v + 1)


def LEAFF(v):          # new elements merge with nothing
    return op(9, v + 1 + 32)


def SEARCHF(v):
    return op(10, v + 1 + 32)


def RANGES(n):
    return op(11, n)


CLEAR = op(12)

# trees: (how built, leaves, largest length (0: all 1, every position tried;
# 1000+s: all 1, positions around multiples of s), parameter)
EMPTY = (0, 0, 2, 0)
ONE = (0, 1, 3, 0)
T2 = (0, 2, 3, 0)
T3 = (0, 3, 3, 0)
T4 = (0, 4, 2, 0)


def push(n, l=1):
    return (0, n, l, 0)


def bulk(n, l=1):
    return (1, n, l, 0)


def nohead(n, k, l=1):       # first k leaves drained
    return (2, n, l, k)


def sparse(n, m, r, l=1):    # only every m-th leaf (offset r) kept
    return (3, n, l, 8 * (m - 2) + r)


def nomid(n, k, l=1):        # k leaves drained from the middle
    return (4, n, l, k)


def near(n, l=1):            # every element continues the one before, with another attribute
    return (5, n, l, 0)


def solo(n, l=1):            # elements that merge with nothing
    return (6, n, l, 0)


def hist(seed, steps, l=0):  # whatever a fixed history of mixed operations leaves behind
    return (7, steps, l, seed)


def crowd(n, k, node, l=0):  # k more elements inside the node-th bottom node (of six)
    return (8, n, l, 16 * node + k)


# a bottom node about to split below a node about to split: the root, or (the
# last) one below it
FULL2 = (crowd(66, 5, 0, 1006), crowd(66, 5, 4, 1006), crowd(66, 5, 9, 1006))
FULL3 = (crowd(102, 5, 6, 1006), crowd(102, 5, 11, 1006), crowd(102, 5, 15, 1006))
# histories picked for the trees they leave: few or many leaves, two or three
# levels, nodes with one child next to nearly full ones
HIST2 = (hist(6, 12, 2), hist(6, 25, 2), hist(10, 25, 2))
HIST1 = (hist(10, 25), hist(0, 25), hist(10, 50), hist(11, 100, 1014))
MANYHIST = tuple(hist(s, n, 1000 + n // 4) for n in (12, 25, 50, 100) for s in range(20, 30))
MORE = tuple(hist(s, n, 1000 + n // 3) for n in (25, 50, 100) for s in (31, 32, 33))
HIST3 = (hist(0, 50, 1020), hist(0, 100, 1030), hist(5, 100, 1024), hist(12, 100, 1018))


class L(list):
    """list of jobs under construction"""

    def __init__(self, mask):
        self.mask = mask

    def seq(self, kinds, trees, *opss):
        for k in kinds:
            for t in trees:
                for ops in opss:
                    ops = list(ops) if isinstance(ops, (list, tuple)) else [ops]
                    self.append((f"seq.{len(self)}", "h_seq", [self.mask, k, *t, len(ops), *ops]))
        return self

    def on(self, entry, kinds, trees, *extras):
        for k in kinds:
            for t in trees:
                for x in extras or ([],):
                    self.append((f"{entry[2:]}.{len(self)}", entry, [self.mask, k, *t, *x]))
        return self

    def raw(self, entry, *cfgs):
        for c in cfgs:
            self.append((f"{entry[2:]}.{len(self)}", entry, list(c)))
        return self


D = (RUN,)
DD = (RUN, RUNMAX)
ALL = (RUN, RUNMAX, CHUNK, CHUNKMAX)
CH = (CHUNK,)
ST = (STYLED,)
SMALL = (EMPTY, ONE, T2, T3)


def p01(t):
    j = L(CONTENT | STRUCT)
    j.seq(D, (*SMALL, T4), INS)
    j.seq(CH, SMALL, INS)
    j.seq(ST, SMALL, INS)
    j.seq(ST, (ONE,), [INS, INS])
    j.seq(D, (near(3, 2), solo(2, 2)), INS)
    j.seq(D, (solo(1, 3),), [INS, INS])
    j.seq((RUNMAX,), (T2,), INS)
    j.seq(D, (push(11), push(12), push(13), bulk(21), sparse(40, 4, 1), nohead(24, 9)), INS, INSQ)
    j.seq(CH, (push(11), push(12)), INS)
    j.seq(D, (push(66, 0), push(78, 0), bulk(100, 0), bulk(110, 0), nomid(120, 70, 0)), INS1)
    j.seq(D, ((0, 1, 2, 0),), [INS, INS], [INSQ1, INSQ])
    j.seq(D, ((0, 2, 2, 0),), [INS1, INS])
    j.seq(D, (push(11, 1004),), [INS1, INS1, INS1])
    j.seq(CH, (ONE,), [INS, INS])
    j.seq(D, HIST2, INS)
    j.seq(D, (*HIST1, *HIST3), INS1, INSQ1)
    j.seq(CH, (hist(2, 25, 2),), INS1)
    j.seq(D, (*FULL2, *FULL3), INS1, INSQ1)
    if t:
        j.seq(D, MANYHIST, INS1)
        j.seq(CH, MANYHIST[:10], INS1)
        j.seq(ALL, (push(4, 3), push(5, 3)), INS)
        j.seq(ALL, (push(12, 2), push(13, 2)), INS1)
        j.seq(ALL, (T3, push(11, 1003)), [INS, INS])
        j.seq(D, ((0, 2, 2, 0),), [INS, INS], [INSQ, INSQ])
        j.seq(D, (T2,), [INS1, INS1, INS1])
        j.seq(D, (push(130, 0), bulk(250, 0), push(400, 1007)), INS1)
        j.seq(D, (push(66, 1006),), [INS1, INS1, INS1])
    return j


def p02(t):
    j = L(CONTENT | STRUCT)
    j.seq(D, (*SMALL, T4), DRAIN_FORMS)
    j.seq(D, (T3,), DRAINQ)
    j.seq(CH, (EMPTY, ONE, T2, T3), DRAIN_FORMS)
    j.seq(ST, (T2, T3), DRAIN_FORMS)
    j.seq(D, (push(11), push(13), push(18), bulk(31), sparse(40, 4, 1), nohead(24, 9)), DRAIN)
    j.seq(CH, (push(12, 1005),), DRAIN)
    j.seq(D, (push(80, 1005), bulk(111, 1010), push(90, 1006)), DRAIN_ALL, DRAIN_NONE)
    j.seq(D, (push(26, 1009), bulk(42, 1014)), [DRAIN_NONE, DRAIN_ALL])
    j.seq(D, (T2,), [DRAIN, DRAIN])
    j.seq(D, (hist(10, 25), hist(0, 50, 1020)), DRAIN)
    j.seq(D, (hist(6, 12, 2),), DRAIN_ALL)
    j.seq(D, (hist(10, 50), *HIST3), DRAIN_ALL)
    # cursors at the end of a node's last element
    j.seq(D, (push(13), bulk(21, 1005), push(78, 1013), hist(10, 25, 1005)), DRAIN_ALL_FORMS)
    j.seq(D, (FULL2[1], FULL3[1]), DRAIN_ALL)
    if t:
        j.seq(D, HIST1, DRAIN_FORMS)
        j.seq(D, HIST2, DRAIN_ALL)
        j.seq(D, MANYHIST, DRAIN)
        j.seq(D, (T3,), [DRAIN, DRAIN])
        j.seq(ALL, (push(5, 3), push(13, 1)), DRAIN_FORMS)
        j.seq(ALL, (push(12, 2),), DRAIN_ALL)
        j.seq(D, (push(80, 0), bulk(111, 0), bulk(120, 0)), DRAIN_ALL)
        j.seq(D, (push(450, 1030), bulk(1100, 1100)), DRAIN_ALL)
        j.seq(D, (push(26, 1003), bulk(42, 1005)), [DRAIN_NONE, DRAIN_ALL], [DRAIN_NONE, INS1], [DRAIN_NONE, REMOVE])
    return j


def p03(t):
    j = L(CONTENT | STRUCT)
    j.seq(ALL, (*SMALL, push(6, 2)), REMOVE)
    j.seq(D, (push(11), push(12), push(13), push(18), bulk(31), sparse(40, 4, 1), nohead(24, 9), nomid(30, 15)), REMOVE)
    j.seq(D, (push(66, 0), push(90, 0), bulk(111, 0), bulk(121, 0), sparse(120, 3, 1, 0), nomid(140, 80, 0), nohead(140, 80, 0)), REMOVE)
    j.seq(D, (push(13), bulk(21), push(12)), [REMOVE, REMOVE])
    j.seq(D, (T3, T4), [REMOVE, REMOVE, REMOVE])
    # a drained head leaves a short first node behind
    j.seq(D, (bulk(12, 0), push(13, 0), bulk(21, 1005), push(24, 1006), push(78, 1011)), [DRAIN_NONE, REMOVE])
    j.seq(D, (bulk(12, 1003),), [DRAIN_NONE, REMOVE, REMOVE])
    # batches make lopsided trees (nodes with one child next to full ones)
    j.seq(D, (EMPTY, bulk(11, 0), bulk(21, 1010), push(13, 1006)), [MANY1(30), REMOVE])
    j.seq(D, (EMPTY, bulk(11, 1010)), [MANY1(13), REMOVE])
    j.seq(D, (push(12, 0),), [REMOVE, REMOVE, REMOVE])
    j.seq(D, (push(78, 0),), [REMOVE, REMOVE])
    j.seq(DD, (*HIST1, *HIST3), REMOVE)
    j.seq(D, MORE, REMOVE, DRAIN_NONE)
    j.seq(D, (hist(10, 25), hist(0, 50, 1020)), [REMOVE, REMOVE], [DRAIN_NONE, REMOVE])
    if t:
        j.seq(D, MANYHIST, REMOVE, [REMOVE, REMOVE])
        j.seq(ALL, (push(13, 2), bulk(21, 2)), REMOVE, [REMOVE, REMOVE])
        for n in range(13, 40, 3):
            j.seq(DD, (push(n, 0), bulk(n, 0)), [REMOVE, REMOVE])
        for m in (2, 3, 4, 5):
            for n in (60, 90, 120, 200):
                j.seq(D, (sparse(n, m, 0, 0), sparse(n, m, 1, 0)), REMOVE, [REMOVE, REMOVE])
        j.seq(D, (push(14, 0), bulk(21, 0)), [REMOVE, REMOVE, REMOVE])
    return j


ANYOP = (INS, PUSH, PREP, DRAIN, REMOVE, MANY(2), UPDATE, LEAF, SEARCH, RANGES(1))
ANYOP1 = (INS1, PUSH, PREP, DRAIN_ALL, REMOVE, MANY1(3), UPD_ANN, UPD_CLEAR, LEAFV(0), LEAFV(5), LEAFF(12),
          SEARCHV(1), SEARCHV(3), SEARCHF(4), RANGES(1))


GROW = (INS1, MANY1(2), LEAFF(12), SEARCHF(4))


def everywhere(j, t, deep=True):
    """every operation on a spread of trees"""
    j.seq(D, (EMPTY, ONE, T3), *ANYOP)
    j.seq((RUNMAX,), (T2,), *ANYOP)
    j.seq((CHUNKMAX,), (T2,), *ANYOP)
    j.seq(ST, (T2,), *ANYOP)
    j.seq(D, (push(12), bulk(21), push(11), push(17)), *ANYOP1)
    j.seq(D, (solo(2, 2),), *ANYOP)
    j.seq(D, (near(2, 2),), UPDATE, LEAF, SEARCH, RANGES(1), RANGES(2))
    j.seq((RUNMAX,), (push(13, 1004),), *ANYOP1)
    j.seq(D, (hist(10, 25), hist(10, 50, 1005)), *ANYOP1)
    if deep:
        j.seq(D, MORE, INS1, REMOVE, MANY1(3), LEAFV(5), SEARCHF(4))
        j.seq(D, HIST3, *[o for o in ANYOP1 if o not in (UPD_ANN, UPD_CLEAR)], UPD_CLEAR)
        j.seq(D, (*FULL2, *FULL3), *GROW)
        j.seq(DD, (push(78, 1026), bulk(111, 1037)), *ANYOP1)
        j.seq(D, (push(66, 1022), bulk(110, 1055), bulk(101, 1050), nohead(24, 11), nohead(140, 71, 1023)), *ANYOP1)
        j.seq(D, (EMPTY, push(12, 1006)), *[[a, b] for a in (INS1, DRAIN_ALL, MANY1(3)) for b in (REMOVE, INS1, DRAIN_NONE)])
    if t:
        j.seq(ALL, (T3, push(11), push(13), bulk(31), sparse(40, 4, 1), nohead(24, 9), nomid(40, 22)), *ANYOP)
        j.seq(DD, (push(78, 1013), bulk(111, 1011), nomid(140, 80, 1011), sparse(120, 3, 1, 1007)), *ANYOP1)
        j.seq(DD, (T2, push(12, 1004)), *[[a, b] for a in ANYOP1 for b in ANYOP1])
        j.seq(D, MANYHIST, *ANYOP1)
        j.seq(D, (push(24, 1008),), *[[a, b] for a in ANYOP1 for b in ANYOP1])
    return j


def p04(t):
    return everywhere(L(AGG), t)


def p05(t):
    j = L(QUERY)
    j.on("h_spot", D, (EMPTY, ONE, T3, push(13), push(78, 0), bulk(111, 0)))
    return everywhere(j, t)


def p06(t):
    j = L(CONTENT)
    ext = [[v] for v in range(5)]
    j.on("h_iter_range", D, (EMPTY, ONE, T3, push(13), bulk(21), sparse(40, 4, 1)), *ext)
    j.on("h_iter_range", CH, (ONE, T3, push(12, 1006)), *ext)
    j.on("h_iter_range", D, (push(80, 1013), bulk(111, 1018), hist(10, 25), hist(0, 50, 1020), hist(12, 100, 1018)), *ext)
    j.mask = NAV
    j.seq(D, (push(12), bulk(21), push(78, 1026)), INS1, DRAIN_ALL, REMOVE)
    if t:
        j.on("h_iter_range", ALL, (T4, push(12, 2), push(26, 1003), bulk(42, 1003), nomid(120, 70, 1005)), *ext)
    return j


def p07(t):
    j = L(CONTENT | AGG | STRUCT)
    j.seq(D, (EMPTY, ONE, T2), MANY(0), MANY(1), MANY(2), MANY(3))
    j.seq(D, (T3,), MANY(2), MANY1(3))
    j.seq(D, (EMPTY,), MANY1(11), MANY1(13), MANY1(25), MANY(4))
    j.seq(CH, (EMPTY, ONE, T2), MANY(2), MANY(3))
    j.seq(ST, (EMPTY, ONE, T2), MANY(1), MANY(2), MANY(3))
    j.seq(ST, (EMPTY,), MANY(4))
    j.seq(D, (solo(2, 2),), MANY(2), MANY(3))
    j.seq(CH, (EMPTY,), MANY1(12), MANY1(30))
    j.seq(D, (push(11), push(13), bulk(21)), MANY(2), MANY1(12))
    j.seq(D, (push(78, 1013),), MANY1(14))
    j.seq(D, ((0, 0, 1, 0),), [MANY1(25), MANY1(13)])
    j.seq(D, (EMPTY,), [MANY1(12), REMOVE], [MANY1(12), DRAIN_NONE])
    j.seq(D, (hist(6, 25, 2), *HIST1, *HIST3), MANY1(2), MANY1(13))
    j.seq(CH, (hist(2, 25, 2),), MANY(2))
    j.seq(D, (*FULL2, *FULL3), MANY1(2))
    j.seq(D, (FULL2[0], FULL3[1]), MANY1(13))
    if t:
        j.seq(D, MANYHIST, MANY1(3), MANY1(14))
        j.seq(ALL, (EMPTY, ONE, T2, T3, push(12, 1004)), MANY(2), MANY(3), MANY(4))
        j.seq(D, (EMPTY,), *[MANY1(k) for k in range(2, 60)])
        j.seq(D, (push(11), bulk(30)), *[MANY1(k) for k in range(2, 40, 5)])
        j.seq(D, (ONE, T2), MANY(5))
    return j


def p08(t):
    j = L(CONTENT | AGG | STRUCT)
    j.seq(D, (EMPTY, ONE, T2, T3, T4), UPDATE_FORMS)
    j.seq((RUNMAX,), (T2,), UPDATE_FORMS)
    j.seq(CH, (ONE, T2), UPDATE_FORMS)
    j.seq(ST, (T2, T3), UPDATE_FORMS)
    j.seq(D, (near(3, 2), solo(3, 2)), UPDATE_FORMS)
    j.seq(D, (push(13), push(18), bulk(21), sparse(40, 4, 1)), UPDATE)
    j.seq(D, (push(80, 1010), bulk(111, 1018)), UPD_ANN, UPD_CLEAR)
    j.seq(D, (T2,), [UPDATE, UPDATE])
    j.seq(CH, (push(11, 1006),), UPDATE)
    j.seq(D, (hist(6, 12, 2), hist(10, 25), *HIST3), UPD_ANN, UPD_CLEAR)
    # cursors at the end of a node's last element
    j.seq(D, (push(13), bulk(21, 1005), push(78, 1013), hist(10, 25, 1005)), UPD_ANN_FORMS, UPD_CLEAR_FORMS)
    j.seq(D, (*FULL2, FULL3[0]), UPD_ANN)
    if t:
        j.seq(D, MANYHIST, UPD_ANN, UPD_CLEAR)
        j.seq(ALL, (T3, T4, push(13), push(12, 1005)), UPDATE_FORMS)
        j.seq(D, (push(12, 2),), UPDATE)
        j.seq(D, (push(80, 1004), bulk(111, 1005), nomid(140, 80, 1005), push(450, 1040)), UPD_ANN, UPD_CLEAR)
        j.seq(D, (push(26, 1006), bulk(42, 1010)), [UPD_CLEAR, UPD_ANN], [UPD_CLEAR, UPD_CLEAR])
    return j


def p09(t):
    j = L(CONTENT | AGG | STRUCT)
    j.seq(D, (ONE, T2, T3), LEAF)
    j.seq(ALL, (T2,), LEAF)
    j.seq(D, (EMPTY, ONE, T2, T3, T4), SEARCH)
    j.seq((CHUNK, CHUNKMAX), (T2,), SEARCH)
    j.seq(D, (push(11), push(12), push(13), bulk(21), sparse(40, 4, 1)), *[LEAFV(v) for v in (0, 5, 12, 14)], SEARCHV(1), SEARCHV(3), SEARCHV(4))
    j.seq(D, (push(11, 2),), *[LEAFV(v) for v in (4, 8, 15, 16, 17)], SEARCHV(2))
    j.seq(ST, (ONE, T2, T3), LEAF, SEARCH)
    j.seq(D, (near(2, 2), near(3, 2), solo(2, 2)), LEAF, SEARCH)
    j.seq(D, (push(17), push(66, 1006), bulk(21), bulk(110, 1010)), [SEARCHF(4), SEARCHF(4)], [LEAFF(12), SEARCHF(4)])
    j.seq(D, (push(66, 0), bulk(110, 0)), SEARCHV(4))
    j.seq(D, (push(78, 0), bulk(111, 0)), LEAFV(5), LEAFV(12), SEARCHV(3), SEARCHV(4))
    j.seq(D, (push(13),), [SEARCHV(3), SEARCHV(3)], [LEAFV(5), LEAFV(5)], [LEAFF(12), SEARCHV(3)])
    j.seq(D, (push(78, 0), nomid(140, 80, 0), nohead(140, 80, 0)), [SEARCHV(3)])
    j.seq(D, (hist(6, 25, 2), *HIST1, *HIST3, *MORE), LEAFV(5), LEAFF(12), SEARCHV(3), SEARCHF(4))
    j.seq(D, (*FULL2, *FULL3), LEAFF(12), SEARCHF(4))
    if t:
        j.seq(D, MANYHIST, LEAFV(5), LEAFF(12), SEARCHV(3), SEARCHF(4))
        j.seq(ALL, (T3, T4, push(11), push(13), bulk(21)), LEAF, SEARCH)
        j.seq(D, (push(12, 2), push(13, 2)), LEAF, SEARCH)
        j.seq(D, (push(78, 0), bulk(111, 0), sparse(120, 3, 1, 0)), [SEARCHV(3), SEARCHV(3)], [LEAFV(5), LEAFV(5)], [SEARCHF(4), SEARCHF(4)], [LEAFF(12), LEAFF(12)])
        j.seq(D, (push(14), bulk(21)), [SEARCHV(3)] * 3, [LEAFV(5)] * 3, [SEARCHF(4)] * 3)
    return j


def p10(t):
    j = L(CONTENT | AGG | STRUCT)
    j.seq(D, (EMPTY, ONE, T2), RANGES(1), RANGES(2))
    j.seq((RUNMAX,), (T2,), RANGES(2))
    j.seq(CH, (ONE, T2), RANGES(1), RANGES(2))
    j.seq(D, (ONE, (0, 2, 2, 0)), RANGES(3))
    j.seq(ST, (ONE, T2, T3), RANGES(1), RANGES(2))
    j.seq(D, (near(2, 3), near(3, 2)), RANGES(1), RANGES(2))
    j.seq((STYLEDMAX, RUNMAX), (near(2, 2),), RANGES(1), RANGES(2))
    j.seq(ST, (ONE,), RANGES(3))
    j.seq(DD, (solo(2, 3),), RANGES(1), RANGES(2))
    j.seq(D, (solo(1, 3),), RANGES(3))
    j.seq(D, (push(12, 2), bulk(21, 2)), RANGES(1))
    j.seq(CH, (push(11),), RANGES(1))
    j.seq(D, (push(13),), RANGES(2))
    j.seq(D, (push(78, 0), bulk(111, 0)), RANGES(1))
    j.seq(D, (push(26, 0),), RANGES(2))
    j.seq(D, (T2,), [RANGES(1), RANGES(1)])
    j.seq(D, (hist(6, 25, 2), hist(0, 25), *HIST3, *MORE), RANGES(1))
    j.seq(D, (FULL2[1], FULL3[0]), RANGES(1))
    if t:
        j.seq(ALL, (ONE, T2, T3), RANGES(2))
        j.seq(ALL, (ONE,), RANGES(3))
        j.seq(D, (T2, push(3, 2)), RANGES(3))
        j.seq(D, (push(12, 2),), RANGES(2))
        j.seq(D, (push(78, 0),), RANGES(2))
    return j


def p11(t):
    j = L(NAV)
    j.on("h_order", D, (EMPTY, T4, push(13), bulk(21)))
    j.on("h_order", D, (push(78, 1006), bulk(111, 1010), nomid(140, 80, 1007), push(450, 1075)))
    j.on("h_order", CH, (T3,))
    for h in ("h_prefer", "h_shift"):
        j.on(h, D, (EMPTY, ONE, T4, push(13), bulk(21), push(78, 0), bulk(111, 0), nomid(140, 80, 0), sparse(120, 3, 1, 0)))
        j.on(h, CH, (ONE, T4, push(13)))
    for h in ("h_prefer", "h_shift", "h_order"):
        j.on(h, D, (hist(6, 25, 2), hist(10, 25), hist(0, 50, 1020), hist(12, 100, 1018)))
    j.seq(D, (FULL2[0], FULL3[0]), *GROW)
    everywhere(j, t, False)
    return j


def p12(t):
    j = L(CONTENT | AGG | STRUCT | NAV)
    ns = (0, 1, 9, 10, 11, 12, 20, 21, 22, 99, 100, 101, 110, 111) if not t else (*range(0, 130), 200, 201, 999, 1000, 1001, 1011)
    for n in ns:
        j.seq(D, ((1, n, 2 if n <= 22 else 1, 0),), [])
        j.seq((RUNMAX, CHUNK), ((1, n, 1, 0),), [])
    j.mask = CONTENT | AGG | STRUCT
    j.seq(D, (bulk(10), bulk(11), bulk(12), bulk(21)), INS1, DRAIN_ALL, REMOVE, PUSH, PREP)
    j.seq(D, (bulk(100, 0), bulk(101, 0), bulk(111, 0)), INS1, REMOVE, PUSH, PREP)
    j.seq(D, (bulk(100, 1020), bulk(101, 1020), bulk(111, 1020)), DRAIN_ALL)
    j.mask = QUERY
    j.seq(D, (bulk(21), bulk(101), bulk(111)), [])
    return j


def p13(t):
    j = L(0)
    r = lambda n, sz, where, stride, *ops: [n, sz, where, stride, len(ops) // 2, *ops]
    I, DEL, DEL1, CLR, ANYR, ALLR, TYPE, BACK = 0, 1, 2, 3, 4, 6, 7, 8
    w = lambda c, win: c | win << 8
    c = [
        r(0, 0, 0, 1, I, 3, I, 2, DEL1, 0),
        r(0, 0, 0, 1, I, 5, DEL, 0, I, 1, I, 1),
        r(0, 0, 0, 1, I, 2, CLR, 0, I, 3, I, 1),
        r(0, 0, 0, 1, I, 3, I, 1, CLR, 0, I, 2, I, 1),
        r(0, 0, 0, 1, I, 4, I, 1, ALLR, 0, I, 3, I, 1),
        r(3, 10, 0, 1, I, 4, ANYR, 3),
        r(2, 10, 1, 1, I, 3, TYPE, 2, BACK, 0),
        r(2, 20, 1, 1, TYPE, 3, TYPE, 3, BACK, 0, w(I, 2), 3),
        r(1, 30, 0, 1, DEL, 0, w(I, 2), 5, TYPE, 1),
        r(30, 20, 0, 50, DEL, 0, w(I, 2), 4, TYPE, 2),
        r(40, 20, 1, 32, I, 70, TYPE, 2, BACK, 0),
        r(2, 100, 0, 20, I, 100, DEL, 70),
        r(3, 150, 0, 25, I, 300, w(I, 3), 1, w(DEL1, 2), 0),
        r(60, 60, 1, 200, I, 5, TYPE, 60, DEL, 700),
        r(3, 20, 0, 1, DEL1, 0, w(DEL1, 2), 0, w(I, 2), 2),
        r(1, 4000, 0, 700, DEL, 0, w(I, 1), 300, w(I, 1), 1),
        r(20, 20, 1, 80, DEL, 0, w(I, 1), 2, w(ANYR, 1), 5),
        r(1, 60, 0, 20, I, 60, TYPE, 8, w(DEL, 1), 20, w(I, 1), 60),
        r(3, 60, 0, 10, I, 8, I, 8),
        # characters of several bytes; the empty text
        r(1, 12, 2, 1, I, 6, DEL1, 0, BACK, 0),
        r(2, 9, 3, 1, TYPE, 5, DEL, 0, I, 0),
        r(3, 127, 2, 40, w(I, 3), 129, w(DEL1, 3), 0, TYPE, 7),
        r(12, 50, 3, 150, DEL, 0, w(I, 1), 6, w(ANYR, 1), 9),
        r(0, 0, 0, 1, I, 0, I, 4, I, 0, TYPE, 2),
        r(1, 100, 2, 12, I, 300, w(DEL, 4), 140, TYPE, 0, TYPE, 9),
    ]
    if t:
        c += [
            r(0, 0, 0, 1, I, 3, I, 2, DEL, 0, I, 1, DEL1, 0),
            r(2, 8, 1, 1, I, 3, I, 2, DEL, 0),
            r(3, 20, 0, 1, DEL, 0, I, 3, w(I, 3), 2),
            r(30, 20, 1, 20, DEL, 0, w(I, 2), 4, TYPE, 2, BACK, 0),
            r(60, 60, 1, 60, I, 5, TYPE, 60, DEL, 0),
            r(1, 4000, 0, 200, DEL, 0, w(I, 2), 300, w(I, 2), 1, w(DEL1, 1), 0),
            r(3, 150, 0, 10, I, 300, DEL, 0, w(I, 1), 3),
            r(2, 40, 1, 1, w(I, 4), 30, w(I, 4), 30, w(DEL, 4), 20, w(DEL1, 2), 0),
            r(0, 0, 0, 1, I, 3, I, 1, I, 1, DEL, 0, CLR, 0, I, 2, I, 2),
            r(2, 100, 0, 16, I, 100, DEL, 0),
            r(30, 20, 0, 16, DEL, 0, w(I, 2), 4, TYPE, 2),
            r(2, 30, 2, 1, I, 7, DEL1, 0, w(I, 4), 5),
            r(12, 50, 3, 40, DEL, 0, w(I, 4), 6, w(ANYR, 4), 9),
            r(150, 100, 1, 2000, DEL, 0, w(I, 2), 129, w(DEL, 2), 0),
            r(200, 120, 2, 3000, I, 600, w(DEL, 2), 900, TYPE, 3),
        ]
    j.raw("h_rope", *c)
    return j


def p14(t):
    j = L(0)
    # prefill kind, prefill size, keep every .., number of ops, ops
    c = [
        [0, 0, 0, 3, 2, 2, 2],
        [1, 3, 0, 2, 2, 2],
        [2, 3, 0, 1, 2],
        [0, 11, 0, 2, 2, 2],
        [0, 13, 0, 2, 2, 2],
        [3, 14, 3, 2, 2, 2],
        [1, 12, 0, 1, 2],
        [0, 80, 0, 1, 2],
        [3, 90, 4, 1, 2],
        [3, 120, 2, 1, 2],
        [0, 40, 5, 2, 1, 0],
    ]
    s = [[0, 0, 0, 3, 2, 2, 2], [0, 13, 0, 2, 2, 2], [0, 80, 0, 1, 2]]
    if t:
        c += [[0, 0, 0, 4, 2, 2, 2, 2], [1, 4, 0, 3, 2, 2, 2], [2, 5, 0, 1, 2], [1, 13, 0, 2, 2, 2], [0, 80, 0, 2, 2, 2],
              [3, 400, 3, 1, 2], [0, 500, 0, 1, 2], [3, 24, 2, 3, 1, 1, 0], [0, 13, 0, 3, 1, 1, 1]]
        s += [[0, 0, 0, 4, 2, 2, 2, 2], [0, 24, 0, 2, 2, 2]]
    j.raw("h_ord", *c)
    j.raw("h_ordset", *s)
    return j


def p15(t):
    j = L(STRUCT)
    m = 700 if t else 160
    j.raw("h_depth", *[[w, m, k, 0, 0, 0] for w in (0, 1, 3, 4) for k in (0, 1)], [2, 60 if t else 40, 0, 0, 0, 0])
    j.raw("h_depth", *[[1, n, 0, how, o, b] for how in range(1, 6) for o in (0, 1, 3, 4) for b, n in ((0, 90), (1, 125))])
    j.raw("h_depth", *[[1, n, 0, how, 2, b] for how in range(1, 6) for b, n in ((0, 30), (1, 23))])
    j.raw("h_depth", *[[1, n, 0, how, g, b] for how in (6, 7) for n, g, b in ((30, 1, 0), (90, 9, 0), (130, 13, 1), (24, 1, 1))], [1, 400, 0, 6, 40, 0])
    if t:
        j.raw("h_depth", *[[1, n, 0, how, g, b] for how in (6, 7) for n, g, b in ((90, 3, 0), (130, 5, 1), (400, 15, 0), (450, 25, 1))])
        j.raw("h_depth", *[[1, n, 1, how, o, b] for how in range(1, 6) for o in range(5) for b, n in ((0, 200), (1, 300))])
    return everywhere(j, t)


def p16(t):
    j = L(HANDLE)
    j.seq(D, (EMPTY, ONE, T3), *ANYOP)
    j.seq(CH, (T2,), *ANYOP)
    j.seq(ST, (T2,), *ANYOP)
    j.seq(D, (near(2, 2),), UPDATE, LEAF, SEARCH, RANGES(1), RANGES(2))
    j.seq(D, (push(13), bulk(21)), *ANYOP1)
    j.seq(D, (push(78, 1026), bulk(111, 1037), hist(10, 25), hist(0, 50, 1020)), *ANYOP1)
    seqs = [[a, b] for a in (DRAIN_ALL, REMOVE, LEAFV(5), SEARCHV(3), UPD_CLEAR) for b in (INS1, PUSH, MANY1(3), LEAFF(12), SEARCHF(4))]
    j.seq(D, (T2,), *seqs)
    j.seq(D, (FULL2[0], FULL3[0]), *GROW)
    if t:
        j.seq(ALL, (T3, push(11), bulk(31), sparse(40, 4, 1)), *ANYOP)
        j.seq(D, (T3, push(13, 1005)), *[[*s, INS1] for s in seqs])
        j.seq(DD, (push(13, 1005), push(78, 1026)), *seqs)
    return j


def p17(t):
    j = L(REPORT)
    ops = (INS, PUSH, PREP, INSQ, UPDATE, LEAF, SEARCH, RANGES(1), RANGES(2))
    ops1 = (INS1, PUSH, PREP, INSQ, UPD_ANN, UPD_NOP, *[LEAFV(v) for v in (0, 12, 14)], SEARCHV(1), SEARCHV(4), RANGES(1))
    j.seq(D, (EMPTY, ONE, T3), *ops)
    j.seq(CH, (ONE, T2), *ops)
    j.seq(ST, (T2,), *ops)
    j.seq(D, (near(2, 2),), *ops)
    j.seq(D, (push(11), push(12), bulk(21)), *ops1)
    j.seq(D, (push(11, 2),), INS, LEAFV(4), LEAFV(8), SEARCHV(2), RANGES(1))
    j.seq(D, (push(66, 0), bulk(110, 0)), *[o for o in ops1 if o not in (UPD_ANN, UPD_NOP)])
    j.seq(D, (push(66, 1022), hist(0, 50, 1020)), UPD_ANN)
    j.seq(D, (hist(10, 25), hist(0, 50, 1020), hist(12, 100, 1018)), *[o for o in ops1 if o not in (UPD_ANN, UPD_NOP)])
    j.seq(D, (FULL2[0], FULL3[0]), *GROW)
    if t:
        j.seq(ALL, (T3, T4, push(11), push(12)), *ops)
        j.seq(D, (push(11, 2), push(12, 2)), INS, LEAF, SEARCH, RANGES(2))
        j.seq(D, (T2,), *[[a, b] for a in (INS, UPDATE) for b in (INS, UPDATE, LEAF)])
    return j


def p18(t):
    j = L(0)
    ops = ANYOP
    j.on("h_clone", D, (ONE, T2), *[[o, 0] for o in ops])
    j.on("h_clone", CH, (T2,), *[[o, 0] for o in ANYOP1])
    j.on("h_clone", D, (push(12, 1004), bulk(21, 1007)), *[[o, 0] for o in (*ANYOP1, CLEAR)])
    j.on("h_clone", D, (hist(10, 25, 1010), hist(0, 50, 1040)), *[[o, 0] for o in ANYOP1])
    # a removal, the clone, then new elements on either copy
    j.on("h_clone", D, (T2,), *[[b, a + 1] for a in (REMOVE, DRAIN_NONE, UPD_CLEAR) for b in (INS1, PUSH1, MANY1(3))])
    j.on("h_clone", CH, (T2,), *[[INS1, a + 1] for a in (REMOVE, DRAIN_NONE)])
    j.on("h_clone", DD, (push(12, 1006),), *[[b, a + 1] for a in (REMOVE, DRAIN_NONE) for b in (PUSH1, LEAFF(12))])
    if t:
        j.on("h_clone", ALL, (T3, push(13, 1005), push(78, 1026)), *[[o, 0] for o in ops])
    return j


def p19(t):
    j = L(0)
    j.raw("h_slices", [0], [1], [2], [3])
    return j


def p20(t):
    j = L(0)
    M = (RUNMAX, CHUNKMAX)
    j.on("h_filter", M, (EMPTY, ONE, T4, push(13), bulk(21), sparse(40, 4, 1), push(80, 0), bulk(111, 0), nomid(140, 80, 0)), [0])
    j.on("h_filter", M, (push(30, 0),), [3])
    j.on("h_filter", M, (push(80, 0), bulk(111, 0)), [11])
    if t:
        j.on("h_filter", M, (push(80, 0), bulk(111, 0), push(450, 0)), [5], [37])
        j.on("h_filter", M, (push(13, 2), bulk(42), push(450, 0)), [0])
    return j


def p21(t):
    j = L(0)
    j.on("h_degenerate", ALL, (EMPTY, ONE, T2), *[[v] for v in range(6)])
    j.on("h_degenerate", D, (push(12), push(78, 0), bulk(21)), *[[v] for v in (1, 2, 3, 4, 5)])
    if t:
        j.on("h_degenerate", ALL, (T4, push(13), bulk(111, 0)), *[[v] for v in range(6)])
    return j


def p22(t):
    j = L(CONTENT | AGG | STRUCT | QUERY)
    j.seq(ALL, (EMPTY, ONE, T3), PUSH, PREP, [PUSH2, PREP], [PREP2, PUSH])
    j.seq(ALL, (EMPTY,), [PREP2, PREP2, PREP], [PUSH2, PUSH2, PUSH], [PREP2, PUSH2, PREP2, PUSH2])
    ts = (push(11, 0), push(12, 0), push(17, 0), push(66, 0), push(71, 0), bulk(10, 0), bulk(100, 0), bulk(110, 0), nohead(24, 9, 0), sparse(120, 3, 1, 0))
    j.seq(DD, ts, PUSH, PREP, [PUSH2, PREP2, PUSH2, PREP2])
    j.seq(D, (push(11, 0), bulk(100, 0)), [PREP1] * 12, [PUSH1] * 12, [PREP1, PUSH1] * 6, [PREP2] * 4, [PUSH2] * 4)
    j.seq(D, (*HIST1, *HIST3), PUSH, PREP, [PUSH2, PREP2, PUSH2, PREP2])
    j.mask = CONTENT
    j.seq(D, (push(11, 1004),), [REMOVE, PUSH, PREP], [DRAIN_ALL, PUSH, PREP])
    if t:
        j.seq(ALL, (T2,), [PUSH2, PREP2, PUSH2, PREP])
        j.mask = CONTENT | AGG | STRUCT
        for n in range(5, 90, 4):
            j.seq(DD, (push(n, 0), bulk(n, 0)), [PREP1] * 8, [PUSH1] * 8)
    return j


def p23(t):
    return everywhere(L(SELF), t)


def p24(t):
    j = L(0)
    modes = [[m, k] for m in range(4) for k in (1, 2)]
    one = [[m, 1] for m in range(4)]
    j.on("h_inplace", ALL, (ONE, T3), *modes)
    j.on("h_inplace", DD, (push(12), bulk(21), push(30, 0), sparse(40, 4, 1, 0)), *modes)
    j.on("h_inplace", DD, (push(80, 0), bulk(111, 0), nomid(140, 80, 0), push(450, 0)), *one)
    j.on("h_inplace", DD, (push(12, 3), hist(10, 25), hist(0, 50), hist(12, 100)), *one)
    if t:
        j.on("h_inplace", ALL, (push(13), bulk(42), bulk(1100, 0)), *one)
        j.on("h_inplace", D, (push(13, 2), T3), *[[m, 3] for m in range(3)])
    return j


def p25(t):
    j = L(0)
    ops = [v for v in range(18) if v != 16]
    for b, g in ((bulk(3000, 1000), 300),) + (((bulk(9000, 1000), 500),) if t else ()):
        j.on("h_work", D, (b,), *[[v, 1, g] for v in ops])
        j.on("h_work", (RUNMAX,), (b,), *[[v, 1, g] for v in range(18)])
        j.on("h_work", CH, (b,), *[[v, 1, g] for v in ops])
    j.on("h_work", DD, (push(1500, 1000),), *[[v, 1, 150] for v in ops])
    j.raw("h_ordwork", *[[k, 1200] for k in range(3)])
    return j


def p26(t):
    j = L(CONTENT | AGG | STRUCT)
    M = (RUNMAX, CHUNKMAX)
    LOOK, INSERT, DRAW, CHANGE, ATMAX, EXACT, BEFORE = 0, 1, 2, 3, 8, 16, 32
    every = [[0, 0, v] for v in (LOOK, INSERT, DRAW, CHANGE)]
    j.on("h_find", D, (EMPTY, ONE, T3, push(13, 0), bulk(21, 1004)), *every)
    for f in (EXACT, BEFORE):
        j.on("h_find", D, (T2, push(13, 0), bulk(21, 1007), push(78, 1040), hist(5, 100, 1040)), *[[0, 0, f + v] for v in (LOOK, INSERT, DRAW, CHANGE)])
        j.on("h_find", D, (push(3),), *[[1, 0, f + v] for v in (LOOK, CHANGE)])
    j.on("h_find", D, (push(3),), *[[1, 0, v] for v in (LOOK, INSERT, CHANGE)])
    j.on("h_find", (RUNMAX, CHUNK), (push(3),), [1, 0, LOOK], [1, 0, CHANGE])
    j.on("h_find", D, (push(78, 1026), bulk(111, 1037), *HIST3), *every)
    j.on("h_find", D, (T2,), *[[0, o + 1, LOOK] for o in (PUSH, PREP, REMOVE, MANY(2), UPDATE, LEAF, SEARCH)])
    j.on("h_find", D, (push(12, 1006), bulk(21, 1010)), *[[0, o + 1, LOOK] for o in ANYOP1])
    j.on("h_find", M, (EMPTY, push(3), push(13, 0), bulk(21, 0)), *[[0, 0, ATMAX + v] for v in (LOOK, INSERT, DRAW, CHANGE)])
    j.on("h_find", M, (push(3),), *[[1, 0, ATMAX + v] for v in (LOOK, CHANGE)])
    j.on("h_find", (RUNMAX,), (push(12, 1006), bulk(21, 1010)), *[[0, o + 1, ATMAX + LOOK] for o in ANYOP1])
    if t:
        j.on("h_find", ALL, (T2, push(4), push(12, 1004)), *[[1, 0, v] for v in (LOOK, INSERT, DRAW, CHANGE)])
        for f in (EXACT, BEFORE):
            j.on("h_find", ALL, (T3, push(12, 1004), bulk(21, 1004), bulk(111, 1040)), *[[0, 0, f + v] for v in (LOOK, INSERT, DRAW, CHANGE)])
        j.on("h_find", DD, (push(78, 1010), bulk(111, 1015)), *[[0, o + 1, v] for o in ANYOP1 for v in (LOOK, CHANGE)])
    return j


PROPS = {f"P{i:02}": f for i, f in enumerate(
    (p01, p02, p03, p04, p05, p06, p07, p08, p09, p10, p11, p12, p13, p14, p15, p16, p17, p18, p19, p20, p21, p22, p23, p24, p25, p26), 1)}


def jobs(prop, tier):
    q = PROPS[prop](False)
    if tier == "quick":
        return list(q)
    seen, out = set(), []
    for n, e, c in PROPS[prop](True):
        k = (e, tuple(c))
        if k not in seen:
            seen.add(k)
            out.append((n, e, c))
    return out



# ---- what is claimed, in words (goes into the evidence) ----

KINDS = {4: "Styled elements (capacity 4, merge by attribute), difference caches", 5: "Styled elements (capacity 4, merge by attribute), recomputed-maximum caches", 0: "Run elements, difference caches", 1: "Run elements, recomputed-maximum caches",
         2: "Chunk elements (capacity 4), difference caches", 3: "Chunk elements (capacity 4), recomputed-maximum caches"}
SHAPES = {0: "pushed", 1: "bulk built", 2: "pushed, first {p} leaves drained", 3: "pushed, all but every {m}th leaf removed",
          4: "pushed, {p} leaves drained from the middle",
          5: "pushed, each continuing the previous one", 6: "pushed, merging with nothing",
          8: "pushed, then {k} more inserted into bottom node {m}",
          7: "left by fixed history {p} of {n} operations"}
OPS = {0: "insert_by_path", 1: "push", 2: "prepend", 3: "insert at query", 4: "drain", 5: "drain_by_query", 6: "remove_leaf",
       7: "insert_many_by_cursor", 8: "update", 9: "update_leaf", 10: "update_leaf_by_search",
       11: "update_leaves_with_arg_in_ranges", 12: "clear"}

ASSUMPTIONS = [
    "claims hold within the listed bounds only (tree shapes, leaf lengths, operation sequences); nothing is claimed beyond them",
    "the tree is instantiated with the element and cache types of /verif/harness/src/model.rs (and the crate's own Rope, OrdTreeMap, OrdTreeSet)",
    "the IR is what rustc emits for the dev profile with overflow checks at opt-level as set in harness/Cargo.toml, x86-64; 64-bit usize",
    "allocation succeeds up to the executor's memory bound; panics end a path and count as violations",
    "rustc/LLVM, the executor in /verif/engine and Z3 are trusted; sampled paths are compared with native runs on every check",
]


def tree_text(shape, n, lmax, par):
    if n == 0:
        return "empty"
    how = SHAPES[shape].format(k=par % 16, p=par, m=par // 8 + 2 if shape == 3 else par // 16, n=n)
    if lmax == 0:
        l = "length 1 each, every position"
    elif lmax >= 1000:
        l = f"length 1 each, positions within 1 of a multiple of {lmax - 1000}"
    else:
        l = f"lengths 1..{lmax} symbolic" if lmax > 1 else "length 1 each, positions symbolic"
    return f"the tree {how}, {l}" if shape == 7 else f"{n} leaves {how}, {l}"


def describe(prop, todo):
    trees, seqs, other, kinds, longest = {}, {}, {}, set(), 0
    for _, e, c in todo:
        if e in ("h_rope", "h_ord", "h_ordset", "h_slices", "h_depth", "h_ordwork"):
            other.setdefault(e, []).append(c)
            continue
        kinds.add(KINDS[c[1]])
        t = tree_text(*c[2:6])
        trees[t] = trees.get(t, 0) + 1
        if e == "h_seq":
            ops = c[7:7 + c[6]]
            longest = max(longest, len(ops))
            k = " ; ".join(OPS[o % 32] + (f"/{o // 32}" if o // 32 else "") for o in ops) or "(none)"
            seqs[k] = seqs.get(k, 0) + 1
        else:
            seqs[e] = seqs.get(e, 0) + 1
    r = {}
    if kinds:
        r["element_kinds"] = sorted(kinds)
        r["start_trees"] = dict(list(trees.items())[:60])
        r["operation_sequences"] = dict(list(seqs.items())[:120])
        r["longest_sequence"] = longest
    for e, cs in other.items():
        r[e + "_configurations"] = [" ".join(map(str, c)) for c in cs[:60]]
    return r


if __name__ == "__main__":
    import sys
    for p in sys.argv[2:] or PROPS:
        for n, e, c in jobs(p, sys.argv[1]):
            print(p + "." + n, e, *c)
