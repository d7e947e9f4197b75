"""What is run for each property, and how deep.

A job is (type, kind, parameters).  Types:
  mc      histories of an alphabet (ObjMC, MtlMC): alphabet, depth
  text    texts of a pool (ObjText, MtlText): pool, pieces
  layout  laid-out files (ObjLayout, MtlLayout): pool, depth, reach, uniform
  size    large files (ObjSize, MtlSize): units, sizes
  many    files with tens of thousands of something (ObjMany, MtlMany)
  write   models reached and written down again (ObjWrite, MtlWrite):
          alphabet, depth, and the number of random walks (0: all models)
  swap    independent statements exchanged (ObjSwap, MtlSwap)
  join    files put one after the other (ObjJoin, MtlJoin)
  purity  schedules of calls (Purity): pool, threads, calls, fresh, rounds
  trace   recorded runs of the library (ObjTrace, MtlTrace): profile, count,
          lines, asked every n-th step
All but trace print behaviours that are replayed into the library; trace goes
the other way.
"""

OBJ_ALL = ["ok", "v", "n", "t", "f", "l", "p", "g", "ml", "tl", "so", "ro"]
ALL = "all"


def mc(kind, alpha, depth):
    return ("mc", kind, dict(alpha=alpha, depth=depth))


def text(kind, pool, n, start=1):
    return ("text", kind, dict(pool=pool, n=n, start=start))


def layout(kind, pool, depth, reach, uniform):
    return ("layout", kind, dict(pool=pool, depth=depth, reach=reach, uniform=uniform))


def size(kind, units, upto):
    return ("size", kind, dict(units=units, upto=upto))


def many(kind, units, upto):
    return ("many", kind, dict(units=units, upto=upto))


def write(kind, alpha, depth, walks=0):
    return ("write", kind, dict(alpha=alpha, depth=depth, walks=walks))


def swap(kind, alpha, depth, swaps=1, walks=0):
    return ("swap", kind, dict(alpha=alpha, depth=depth, swaps=swaps, walks=walks))


def join(kind, first, second, depth, then, walks=0):
    return ("join", kind, dict(first=first, second=second, depth=depth, then=then, walks=walks))


def purity(pool, threads, calls, fresh, rounds):
    return ("purity", "both", dict(pool=pool, threads=threads, calls=calls, fresh=fresh, rounds=rounds))


def trace(kind, profile, count, lines, every=1):
    return ("trace", kind, dict(profile=profile, count=count, lines=lines, every=every))


# id -> fields of a model / of a material, quick jobs, further thorough jobs
PLAN = {
    "C01": dict(
        total=True, obj=OBJ_ALL, mtl=ALL,
        quick=[
            many("obj", "long", "wide"), many("mtl", "long", "wide"),
            text("obj", "numEdge", 1), text("obj", "chars1", 4), text("obj", "chars2", 4), text("obj", "odd", 3),
            text("obj", "args", 3), text("obj", "badAmid", 1), text("obj", "numLong", 4), text("obj", "switch", 1),
            text("mtl", "numEdge", 1), text("mtl", "chars1", 4), text("mtl", "chars2", 4), text("mtl", "odd", 3),
            text("mtl", "args", 3), text("mtl", "mapArgs", 3), text("mtl", "badAmid", 1), text("mtl", "inner", 2),
            size("obj", "amounts", "hundreds"), size("mtl", "amounts", "hundreds"), size("obj", "values", "small"),
            mc("obj", "allKinds", 2), mc("mtl", "allKinds", 2), mc("obj", "namesWide", 1), mc("mtl", "everything", 2),
            trace("obj", "mangled", 300, 14), trace("mtl", "mangled", 300, 14), trace("obj", "wild", 60, 30), trace("mtl", "wild", 60, 30),
            text("obj", "anyName", 1), text("obj", "anyPlace", 1), text("obj", "notes", 2), text("mtl", "anyName", 1), text("mtl", "anyPlace", 1), text("mtl", "notes", 2), size("obj", "wide", "hundreds"), size("mtl", "wide", "hundreds"),
            size("obj", "oneLine", "huge"), size("mtl", "oneLine", "huge"),
            text("obj", "counts", 1), text("mtl", "counts", 1), text("obj", "foundWords", 1), text("mtl", "foundWords", 1), text("obj", "foundValues", 1), text("mtl", "foundValues", 1), text("obj", "foundPairs", 1), text("mtl", "foundPairs", 1),
            many("obj", "layouts", "wide"), many("mtl", "layouts", "wide"), many("obj", "refusals", "wide"),
        ],
        thorough=[
            text("obj", "chars1", 5), text("obj", "chars2", 6), text("obj", "odd", 4), text("obj", "unknown", 2), text("obj", "numChars", 5),
            text("mtl", "chars1", 6), text("mtl", "chars2", 6), text("mtl", "odd", 4), text("mtl", "unknown", 2), text("mtl", "mapArgs", 4),
            size("obj", "amounts", "more"), size("mtl", "amounts", "more"), mc("obj", "everything", 2),
            trace("obj", "mangled", 4000, 20), trace("mtl", "mangled", 4000, 20), trace("obj", "wild", 1000, 40), trace("mtl", "wild", 1000, 40),
            text("obj", "anyName", 2), text("obj", "anyPlace", 2), text("mtl", "anyName", 2), text("mtl", "anyPlace", 2), size("obj", "wide", "more"), size("mtl", "wide", "more"), size("obj", "amounts", "large"), size("mtl", "amounts", "large"),
            text("obj", "foundPairs", 2), text("mtl", "foundPairs", 2),
            many("obj", "all", "wider"), many("mtl", "all", "wider"),
        ],
    ),
    "C02": dict(
        obj=OBJ_ALL,
        quick=[
            many("obj", "long", "wide"), many("obj", "layouts", "wide"),
            text("obj", "badAmid", 1), text("obj", "badLong", 3), text("obj", "unknown", 2), text("obj", "args", 2), text("obj", "argsFew", 2),
            text("obj", "chars1", 4), text("obj", "switch", 1), text("obj", "numEdge", 1), mc("obj", "allKinds", 2), mc("obj", "kindsCore", 3),
            size("obj", "others", "hundreds"),
            trace("obj", "bad", 250, 20), trace("obj", "mangled", 250, 14), trace("obj", "mixed", 50, 30),
            text("obj", "anyPlace", 1), text("obj", "notes", 2), text("obj", "refs", 4), size("obj", "wide", "small"),
            text("obj", "counts", 1), text("obj", "foundWords", 1), text("obj", "foundValues", 1), size("obj", "others", "found"),
            many("obj", "refusals", "wide"),
        ],
        thorough=[
            text("obj", "badAmid", 2), text("obj", "badLong", 5), text("obj", "args", 4), text("obj", "chars1", 5), text("obj", "chars2", 5),
            mc("obj", "everything", 2), mc("obj", "allKinds", 3), mc("obj", "kindsCore", 4), size("obj", "others", "more"),
            trace("obj", "bad", 3000, 30), trace("obj", "mangled", 3000, 20), trace("obj", "mixed", 500, 40),
            text("obj", "anyPlace", 2), text("obj", "notes", 3), text("obj", "refs", 5),
            many("obj", "refusals", "wider"),
        ],
    ),
    "C03": dict(
        obj=["ok", "v", "n", "t"],
        quick=[
            mc("obj", "dataCore", 5), mc("obj", "dataWide", 3), mc("obj", "dataMixed", 3), mc("obj", "allKinds", 2), text("obj", "numEdge", 1),
            size("obj", "data", "thousand"), size("obj", "others", "hundreds"), trace("obj", "data", 120, 30), trace("obj", "mixed", 60, 30),
            text("obj", "notes", 1), mc("obj", "allKinds", 3),
            size("obj", "data", "large"),
            text("obj", "counts", 1), text("obj", "foundWords", 1), text("obj", "foundValues", 1), size("obj", "data", "found"),
            many("obj", "data", "wide"),
        ],
        thorough=[
            mc("obj", "dataCore", 7), mc("obj", "dataMixed", 4), mc("obj", "everything", 2), mc("obj", "allKinds", 3), size("obj", "amounts", "more"),
            trace("obj", "data", 1500, 40), trace("obj", "mixed", 1000, 40), trace("obj", "mixed", 20, 600, 60),
            size("obj", "data", "large"),
            many("obj", "data", "wider"),
        ],
    ),
    "C04": dict(
        obj=["ok", "fr", "l", "p"],
        quick=[
            mc("obj", "refsCore", 4), mc("obj", "refsWide", 2), mc("obj", "groupsCore", 4), mc("obj", "allKinds", 2), text("obj", "chars2", 4),
            size("obj", "elems", "thousand"), size("obj", "values", "small"), trace("obj", "refs", 150, 30), trace("obj", "mixed", 60, 30),
            text("obj", "refs", 4), text("obj", "refsFew", 6), text("obj", "anyPlace", 1),
            size("obj", "elems", "large"),
            text("obj", "counts", 1), text("obj", "foundWords", 1), text("obj", "foundValues", 1), size("obj", "elems", "found"), size("obj", "grouped", "found"),
            many("obj", "elems", "wide"),
        ],
        thorough=[
            mc("obj", "refsCore", 6), mc("obj", "refsWide", 3), mc("obj", "allKinds", 3), text("obj", "chars2", 6), size("obj", "elems", "more"),
            trace("obj", "refs", 2000, 40), trace("obj", "mixed", 1000, 40), trace("obj", "refs", 20, 600, 60),
            text("obj", "refs", 6), text("obj", "refsFew", 8), size("obj", "elems", "large"),
            many("obj", "elems", "wider"),
        ],
    ),
    "C05": dict(
        obj=["ok", "fr", "l", "p"],
        quick=[
            mc("obj", "relCore", 5), mc("obj", "relDeep", 6), mc("obj", "relWide", 2), mc("obj", "refsCore", 3),
            size("obj", "elems", "thousand"), size("obj", "values", "small"), trace("obj", "refs", 150, 30), trace("obj", "mixed", 60, 30),
            text("obj", "refs", 4), text("obj", "refsFew", 5),
            size("obj", "elems", "large"),
            text("obj", "counts", 1), text("obj", "foundWords", 1), text("obj", "foundValues", 1), size("obj", "elems", "found"), size("obj", "grouped", "hundreds"),
            many("obj", "relative", "wide"),
        ],
        thorough=[
            mc("obj", "relCore", 6), mc("obj", "relDeep", 7), mc("obj", "relWide", 3), size("obj", "elems", "more"), size("obj", "others", "thousand"),
            trace("obj", "refs", 2000, 40), trace("obj", "mixed", 1000, 40), trace("obj", "refs", 20, 600, 60),
            text("obj", "refs", 6), size("obj", "elems", "large"),
            many("obj", "relative", "wider"),
        ],
    ),
    "C06": dict(
        obj=["ok", "fv", "lv", "p", "gn"],
        quick=[
            many("obj", "long", "wide"), many("obj", "layouts", "wide"),
            mc("obj", "groupsCore", 5), mc("obj", "groupsMore", 3), mc("obj", "groupsWide", 3), mc("obj", "allKinds", 2), mc("obj", "kindsCore", 3),
            size("obj", "grouped", "thousand"), trace("obj", "groups", 150, 30), trace("obj", "mixed", 60, 30),
            text("obj", "anyName", 1), mc("obj", "allKinds", 3),
            size("obj", "grouped", "large"),
            text("obj", "foundWords", 1), text("obj", "foundValues", 1), size("obj", "grouped", "found"), mc("obj", "sameNames", 4), mc("obj", "alikeNames", 4),
            many("obj", "grouped", "wide"),
        ],
        thorough=[
            mc("obj", "groupsCore", 7), mc("obj", "groupsMore", 4), mc("obj", "allKinds", 3), mc("obj", "everything", 2), size("obj", "amounts", "more"),
            trace("obj", "groups", 2000, 40), trace("obj", "mixed", 1000, 40), trace("obj", "groups", 20, 600, 60),
            size("obj", "grouped", "large"),
            mc("obj", "sameNames", 5), mc("obj", "alikeNames", 5),
            many("obj", "grouped", "wider"),
        ],
    ),
    "C07": dict(
        obj=["ok", "g"],
        quick=[
            many("obj", "long", "wide"), many("obj", "layouts", "wide"),
            mc("obj", "setCore", 5), mc("obj", "setFlags", 4), mc("obj", "setNames", 4), mc("obj", "setWide", 3), mc("obj", "allKinds", 2), mc("obj", "namesWide", 1),
            size("obj", "grouped", "thousand"), size("obj", "values", "small"), trace("obj", "settings", 150, 30), trace("obj", "mixed", 60, 30),
            text("obj", "switch", 1), mc("obj", "allKinds", 3),
            size("obj", "grouped", "large"),
            text("obj", "foundWords", 1), text("obj", "foundValues", 1), size("obj", "grouped", "found"), mc("obj", "sameNames", 4), mc("obj", "alikeNames", 4),
            many("obj", "settings", "wide"),
        ],
        thorough=[
            mc("obj", "setCore", 6), mc("obj", "setFlags", 6), mc("obj", "setNames", 6), mc("obj", "setWide", 3), mc("obj", "allKinds", 3), mc("obj", "everything", 2),
            size("obj", "amounts", "more"), trace("obj", "settings", 2000, 40), trace("obj", "mixed", 1000, 40), trace("obj", "settings", 20, 600, 60),
            size("obj", "grouped", "large"),
            mc("obj", "sameNames", 5), mc("obj", "alikeNames", 5),
            many("obj", "settings", "wider"),
        ],
    ),
    "C08": dict(
        obj=["ok", "fs"],
        quick=[
            mc("obj", "smoothCore", 5), mc("obj", "smoothDeep", 6), mc("obj", "smoothWide", 3), mc("obj", "allKinds", 2),
            size("obj", "grouped", "thousand"), size("obj", "values", "small"), trace("obj", "smooth", 150, 30), trace("obj", "mixed", 60, 30),
            text("obj", "switch", 1), mc("obj", "allKinds", 3),
            size("obj", "grouped", "large"),
            text("obj", "foundWords", 1), text("obj", "foundValues", 1), size("obj", "grouped", "found"),
            many("obj", "smooth", "wide"),
        ],
        thorough=[
            mc("obj", "smoothCore", 6), mc("obj", "smoothDeep", 8), mc("obj", "allKinds", 3), mc("obj", "everything", 2), size("obj", "amounts", "more"),
            trace("obj", "smooth", 2000, 40), trace("obj", "mixed", 1000, 40), trace("obj", "smooth", 20, 600, 60),
            size("obj", "grouped", "large"),
            many("obj", "smooth", "wider"),
        ],
    ),
    "C09": dict(
        obj=OBJ_ALL,
        quick=[
            many("obj", "long", "wide"), many("obj", "layouts", "wide"),
            mc("obj", "libsCore", 5), mc("obj", "libsWide", 3), mc("obj", "objects", 4), mc("obj", "objectsWide", 2), mc("obj", "allKinds", 2),
            size("obj", "others", "thousand"), trace("obj", "libs", 150, 30), trace("obj", "mixed", 60, 30),
            text("obj", "anyName", 1), mc("obj", "allKinds", 3),
            size("obj", "others", "large"),
            text("obj", "foundWords", 1), text("obj", "foundValues", 1), size("obj", "others", "found"), mc("obj", "sameNames", 4), mc("obj", "alikeLibs", 4), mc("obj", "namesWide", 1),
            many("obj", "libs", "wide"),
        ],
        thorough=[
            mc("obj", "libsCore", 6), mc("obj", "objects", 5), mc("obj", "allKinds", 3), mc("obj", "everything", 2), size("obj", "amounts", "more"),
            trace("obj", "libs", 2000, 40), trace("obj", "mixed", 1000, 40), trace("obj", "libs", 20, 600, 60),
            size("obj", "others", "large"),
            mc("obj", "alikeLibs", 5), mc("obj", "sameNames", 5),
            many("obj", "libs", "wider"),
        ],
    ),
    "C10": dict(
        obj=["ok", "gn", "fv", "ml", "tl", "so", "ro", "g"], mtl=ALL,
        quick=[
            many("obj", "long", "wide"), many("obj", "layouts", "wide"), many("mtl", "long", "wide"), many("mtl", "layouts", "wide"),
            mc("obj", "namesWide", 1), mc("obj", "namesCore", 3), text("obj", "nameChars", 3), mc("obj", "libsWide", 2),
            mc("mtl", "namesWide", 2), mc("mtl", "namesCore", 4), mc("mtl", "filesWide", 2), text("mtl", "nameChars", 3),
            size("obj", "grouped", "hundreds"), size("obj", "others", "hundreds"), size("obj", "values", "small"),
            size("mtl", "materials", "hundreds"), size("mtl", "maps", "hundreds"), size("mtl", "values", "small"),
            trace("obj", "names", 150, 24), trace("mtl", "names", 150, 24),
            text("obj", "anyName", 1), text("mtl", "anyName", 1), size("obj", "wide", "hundreds"), size("mtl", "wide", "hundreds"),
            size("obj", "oneLine", "huge"), size("mtl", "oneLine", "huge"),
            text("obj", "foundWords", 1), text("obj", "foundPairs", 1), mc("obj", "alikeNames", 4), mc("obj", "alikeLibs", 3), text("mtl", "foundWords", 1), text("mtl", "foundPairs", 1), mc("mtl", "alikeNames", 4), size("obj", "grouped", "found"), size("mtl", "maps", "found"),
        ],
        thorough=[
            mc("obj", "namesWide", 2), text("obj", "nameChars", 4), mc("mtl", "namesWide", 3), mc("mtl", "filesWide", 3), text("mtl", "nameChars", 4),
            size("obj", "amounts", "more"), size("mtl", "amounts", "more"), trace("obj", "names", 2000, 40), trace("mtl", "names", 2000, 40),
            text("obj", "anyName", 2), text("mtl", "anyName", 2), size("obj", "wide", "more"), size("mtl", "wide", "more"),
            text("obj", "foundPairs", 2), text("mtl", "foundPairs", 2),
        ],
    ),
    "C11": dict(
        obj=["ok", "v", "n", "t"], mtl=ALL,
        quick=[
            text("obj", "numChars", 4), text("obj", "numLong", 4), text("obj", "numEdge", 1), text("obj", "numEdge2", 2),
            text("mtl", "numChars", 4), text("mtl", "numEdge", 1), mc("obj", "dataWide", 2), mc("mtl", "scalarsWide", 2),
            size("obj", "data", "thousand"), size("obj", "values", "small"), size("mtl", "others", "hundreds"), size("mtl", "values", "small"),
            trace("obj", "numbers", 200, 30), trace("mtl", "numbers", 200, 24),
            text("obj", "anyPlace", 1), text("mtl", "anyPlace", 1),
            size("obj", "oneLine", "huge"), size("mtl", "oneLine", "huge"), size("obj", "data", "large"),
            text("obj", "foundValues", 1), text("mtl", "foundValues", 1),
        ],
        thorough=[
            text("obj", "numChars", 6), text("obj", "numLong", 6), text("mtl", "numChars", 6), text("obj", "numEdge", 2), size("obj", "data", "more"),
            size("mtl", "others", "more"), trace("obj", "numbers", 4000, 40), trace("mtl", "numbers", 3000, 30),
            text("obj", "anyPlace", 2), text("mtl", "anyPlace", 2),
        ],
    ),
    "C12": dict(
        obj=OBJ_ALL,
        quick=[
            many("obj", "long", "wide"),
            layout("obj", "wide", 1, 2, False), layout("obj", "core", 2, 1, False), layout("obj", "core", 3, 1, True), layout("obj", "wide", 2, 1, True),
            size("obj", "others", "hundreds"), trace("obj", "layout", 150, 30),
            text("obj", "notes", 2), text("obj", "anyPlace", 1), size("obj", "wide", "small"),
            text("obj", "foundWords", 1), text("obj", "foundPairs", 1),
            many("obj", "layouts", "wide"),
        ],
        thorough=[
            layout("obj", "core", 2, 2, True), layout("obj", "core", 4, 1, True), layout("obj", "wide", 2, 1, False), size("obj", "others", "more"),
            trace("obj", "layout", 3000, 40),
            text("obj", "notes", 3),
            many("obj", "layouts", "wider"),
        ],
    ),
    "C13": dict(
        mtl=ALL,
        quick=[
            many("mtl", "long", "wide"),
            layout("mtl", "wide", 1, 2, False), layout("mtl", "core", 2, 1, False), layout("mtl", "core", 3, 1, True), layout("mtl", "wide", 2, 1, True),
            size("mtl", "others", "hundreds"), trace("mtl", "layout", 150, 30),
            text("mtl", "notes", 2), text("mtl", "anyPlace", 1), size("mtl", "wide", "small"),
            text("mtl", "foundWords", 1), text("mtl", "foundPairs", 1),
            many("mtl", "layouts", "wide"),
        ],
        thorough=[
            layout("mtl", "core", 2, 2, True), layout("mtl", "core", 4, 1, True), layout("mtl", "wide", 2, 1, False), size("mtl", "others", "more"),
            trace("mtl", "layout", 3000, 40),
            text("mtl", "notes", 3),
            many("mtl", "layouts", "wider"),
        ],
    ),
    "C14": dict(
        mtl=ALL,
        quick=[
            many("mtl", "long", "wide"), many("mtl", "layouts", "wide"),
            mc("mtl", "sectionCore", 5), mc("mtl", "allKinds", 3), mc("mtl", "everything", 2), mc("mtl", "namesCore", 4),
            size("mtl", "materials", "hundreds"), trace("mtl", "mixed", 150, 30),
            mc("mtl", "twice", 3), mc("mtl", "mapTwice", 4), mc("mtl", "mapSame", 3), text("mtl", "every", 2),
            size("mtl", "materials", "large"),
            text("mtl", "foundWords", 1), text("mtl", "foundValues", 1), mc("mtl", "alikeNames", 5), size("mtl", "materials", "found"),
            many("mtl", "sections", "wide"),
        ],
        thorough=[
            mc("mtl", "sectionCore", 6), mc("mtl", "allKinds", 4), size("mtl", "amounts", "more"), trace("mtl", "mixed", 2000, 40), trace("mtl", "mixed", 20, 400, 50),
            mc("mtl", "twice", 4), mc("mtl", "mapTwice", 5), text("mtl", "every", 3),
            many("mtl", "sections", "wider"),
        ],
    ),
    "C15": dict(
        mtl=ALL,
        quick=[
            many("mtl", "long", "wide"), many("mtl", "layouts", "wide"),
            text("mtl", "badAmid", 1), text("mtl", "badLong", 3), text("mtl", "unknown", 1), text("mtl", "args", 2), text("mtl", "mapArgs", 3),
            text("mtl", "inner", 2), text("mtl", "headless", 3, 0), text("mtl", "switch", 1), text("mtl", "numEdge", 1), mc("mtl", "allKinds", 2), mc("mtl", "everything", 2),
            size("mtl", "others", "hundreds"), trace("mtl", "bad", 250, 20), trace("mtl", "mangled", 250, 14),
            text("mtl", "headlessAll", 2), text("mtl", "every", 2), text("mtl", "anyPlace", 1), text("mtl", "notes", 1), text("mtl", "options", 2), size("mtl", "wide", "small"),
            text("mtl", "counts", 1), text("mtl", "foundWords", 1), text("mtl", "foundValues", 1), size("mtl", "others", "found"),
            many("mtl", "refusals", "wide"),
        ],
        thorough=[
            text("mtl", "badAmid", 2), text("mtl", "badLong", 5), text("mtl", "unknown", 2), text("mtl", "args", 4), text("mtl", "mapArgs", 4), text("mtl", "headless", 4, 0),
            mc("mtl", "allKinds", 3), size("mtl", "amounts", "more"), trace("mtl", "bad", 3000, 30), trace("mtl", "mangled", 3000, 20),
            text("mtl", "headlessAll", 3), text("mtl", "every", 3), text("mtl", "anyPlace", 2), text("mtl", "options", 3),
            many("mtl", "refusals", "wider"),
        ],
    ),
    "C16": dict(
        mtl=["ka", "kd", "ks", "ke", "tf"],
        quick=[
            mc("mtl", "coloursWide", 3), mc("mtl", "coloursCore", 5), mc("mtl", "everything", 2), text("mtl", "numEdge", 1), text("mtl", "chars2", 4), text("mtl", "inner", 2),
            size("mtl", "amounts", "hundreds"), trace("mtl", "colours", 200, 24), trace("mtl", "mixed", 60, 30),
            mc("mtl", "twice", 3),
            text("mtl", "counts", 1), text("mtl", "foundWords", 1), text("mtl", "foundValues", 1),
        ],
        thorough=[
            mc("mtl", "coloursCore", 6), text("mtl", "chars2", 5), size("mtl", "amounts", "thousand"), trace("mtl", "colours", 3000, 40), trace("mtl", "mixed", 1000, 40),
            mc("mtl", "twice", 4),
        ],
    ),
    "C17": dict(
        mtl=["ns", "tr", "ni", "sharpness", "d", "illum", "map_aat"],
        quick=[
            mc("mtl", "scalarsWide", 3), mc("mtl", "scalarsCore", 5), mc("mtl", "everything", 2), text("mtl", "numEdge", 1), text("mtl", "chars1", 4), text("mtl", "inner", 2),
            text("mtl", "switch", 1), text("mtl", "badAmid", 1), size("mtl", "amounts", "hundreds"), size("mtl", "values", "small"), trace("mtl", "scalars", 200, 24), trace("mtl", "mixed", 60, 30),
            mc("mtl", "twice", 3),
            text("mtl", "counts", 1), text("mtl", "foundWords", 1), text("mtl", "foundValues", 1),
        ],
        thorough=[
            mc("mtl", "scalarsCore", 6), size("mtl", "amounts", "thousand"), trace("mtl", "scalars", 3000, 40), trace("mtl", "mixed", 1000, 40),
            mc("mtl", "twice", 4),
        ],
    ),
    "C18": dict(
        mtl=["map_ka", "map_kd", "map_ks", "map_ns", "map_d", "disp", "decal"],
        quick=[
            mc("mtl", "mapSame", 3),
            many("mtl", "long", "wide"), many("mtl", "layouts", "wide"),
            mc("mtl", "mapsWide", 2), mc("mtl", "mapsCombined", 2), mc("mtl", "mapsCore", 5), mc("mtl", "everything", 2), mc("mtl", "filesWide", 2),
            text("mtl", "mapArgs", 3), text("mtl", "numEdge", 1), text("mtl", "badAmid", 1), size("mtl", "amounts", "hundreds"), size("mtl", "values", "small"),
            trace("mtl", "maps", 200, 24), trace("mtl", "mixed", 60, 30),
            mc("mtl", "mapTwice", 4), text("mtl", "options", 2), text("mtl", "optionsFew", 3), text("mtl", "anyName", 1),
            text("mtl", "counts", 1), text("mtl", "foundWords", 1), text("mtl", "foundValues", 1), size("mtl", "maps", "found"),
            many("mtl", "maps", "wide"),
        ],
        thorough=[
            mc("mtl", "mapsCombined", 3), mc("mtl", "mapsCore", 6), text("mtl", "mapArgs", 4), size("mtl", "amounts", "thousand"),
            trace("mtl", "maps", 3000, 30), trace("mtl", "mixed", 1000, 40),
            mc("mtl", "mapTwice", 5), text("mtl", "options", 3), text("mtl", "optionsFew", 5),
            many("mtl", "maps", "wider"),
        ],
    ),
    "C19": dict(
        mtl=["bump", "refl"],
        quick=[
            mc("mtl", "mapSame", 3),
            many("mtl", "long", "wide"), many("mtl", "layouts", "wide"),
            mc("mtl", "mapsWide", 2), mc("mtl", "bumpRefl", 5), mc("mtl", "everything", 2), mc("mtl", "filesWide", 2), text("mtl", "mapArgs", 3), text("mtl", "numEdge", 1),
            text("mtl", "inner", 2), text("mtl", "badAmid", 1), size("mtl", "amounts", "hundreds"), trace("mtl", "bumprefl", 200, 24), trace("mtl", "mixed", 60, 30),
            mc("mtl", "mapTwice", 4), text("mtl", "options", 2), text("mtl", "optionsFew", 4),
            text("mtl", "counts", 1), text("mtl", "foundWords", 1), text("mtl", "foundValues", 1), size("mtl", "maps", "found"),
            many("mtl", "maps", "wide"),
        ],
        thorough=[
            mc("mtl", "bumpRefl", 6), mc("mtl", "mapsCombined", 3), text("mtl", "mapArgs", 4), size("mtl", "amounts", "thousand"),
            trace("mtl", "bumprefl", 3000, 30), trace("mtl", "mixed", 1000, 40),
            mc("mtl", "mapTwice", 5), text("mtl", "options", 3), text("mtl", "optionsFew", 5),
            many("mtl", "maps", "wider"),
        ],
    ),
    "C20": dict(
        obj=["ok", "gb"], mtl=["map_aat", "map_ka", "map_kd", "map_ks", "map_ns", "map_d", "disp", "decal", "bump", "refl"],
        quick=[
            mc("obj", "flagsWide", 3), mc("obj", "setFlags", 4), text("obj", "switch", 2), mc("mtl", "switches", 2), text("mtl", "switch", 1), mc("mtl", "mapsWide", 2),
            size("mtl", "maps", "hundreds"), size("obj", "grouped", "hundreds"), trace("obj", "settings", 150, 30), trace("mtl", "maps", 100, 24), trace("mtl", "bumprefl", 80, 24), trace("mtl", "scalars", 60, 24),
            text("mtl", "options", 2), mc("mtl", "mapTwice", 3),
            text("obj", "foundWords", 1), text("mtl", "foundWords", 1),
        ],
        thorough=[
            mc("obj", "setFlags", 6), mc("obj", "flagsWide", 4), text("mtl", "switch", 2), mc("mtl", "switches", 3), trace("obj", "settings", 1500, 40), trace("mtl", "maps", 1500, 30),
            text("mtl", "options", 3), mc("mtl", "twice", 4),
        ],
    ),
    "C21": dict(
        obj=OBJ_ALL, mtl=ALL,
        quick=[
            purity("both", 2, 3, 300, 400), purity("few", 3, 3, 200, 400), purity("obj", 1, 4, 200, 600), purity("mtl", 1, 4, 200, 600), purity("long", 2, 2, 40, 12),
            trace("obj", "mixed", 60, 30), trace("mtl", "mixed", 60, 30),
            purity("alike", 2, 2, 60, 300), purity("alikeObj", 1, 4, 40, 50), purity("alikeMtl", 1, 4, 40, 50), mc("obj", "allKinds", 3), mc("mtl", "allKinds", 3),
        ],
        thorough=[
            purity("few", 2, 5, 1000, 5000), purity("both", 3, 3, 2000, 5000), purity("long", 3, 3, 100, 60), purity("obj", 1, 6, 1000, 10000), purity("mtl", 1, 7, 1000, 10000),
            purity("alike", 3, 3, 500, 3000),
        ],
    ),
    "C22": dict(
        obj=OBJ_ALL,
        quick=[
            many("obj", "long", "wide"), many("obj", "layouts", "wide"),
            mc("obj", "allKinds", 3), mc("obj", "kindsCore", 4), mc("obj", "dataMixed", 3), size("obj", "amounts", "hundreds"),
            trace("obj", "mixed", 150, 30), trace("obj", "groups", 60, 30), trace("obj", "mixed", 3, 400, 40),
            mc("obj", "libsCore", 4), mc("obj", "groupsCore", 4), mc("obj", "setCore", 4), mc("obj", "relCore", 4),
            size("obj", "amounts", "large"),
            text("obj", "foundWords", 1), mc("obj", "sameNames", 4), mc("obj", "alikeNames", 4), size("obj", "amounts", "found"),
            many("obj", "grouped", "wide"),
        ],
        thorough=[
            mc("obj", "kindsCore", 5), mc("obj", "everything", 2), size("obj", "amounts", "more"), trace("obj", "mixed", 2000, 40), trace("obj", "mixed", 30, 600, 60),
            mc("obj", "libsCore", 5), mc("obj", "groupsCore", 6), mc("obj", "setCore", 5),
            many("obj", "all", "ten"),
        ],
    ),
    "C23": dict(
        mtl=ALL,
        quick=[
            mc("mtl", "mapSame", 3),
            many("mtl", "long", "wide"), many("mtl", "layouts", "wide"),
            mc("mtl", "allKinds", 3), mc("mtl", "sectionCore", 5), mc("mtl", "namesCore", 4), mc("mtl", "everything", 2), size("mtl", "amounts", "hundreds"),
            trace("mtl", "mixed", 150, 30), trace("mtl", "mixed", 3, 300, 30),
            mc("mtl", "twice", 3), mc("mtl", "mapTwice", 4),
            size("mtl", "materials", "large"),
            text("mtl", "foundWords", 1), mc("mtl", "alikeNames", 5), size("mtl", "amounts", "found"),
            many("mtl", "sections", "wide"),
        ],
        thorough=[
            mc("mtl", "allKinds", 4), mc("mtl", "sectionCore", 6), size("mtl", "amounts", "more"), trace("mtl", "mixed", 2000, 40), trace("mtl", "mixed", 30, 500, 50),
            mc("mtl", "twice", 4), mc("mtl", "mapTwice", 5),
            many("mtl", "sections", "wider"),
        ],
    ),
    "C24": dict(
        obj=OBJ_ALL, mtl=ALL,
        quick=[
            size("obj", "amounts", "thousand"), size("mtl", "amounts", "thousand"), size("obj", "amounts", "small"), size("mtl", "amounts", "small"),
            size("obj", "values", "small"), size("mtl", "values", "small"), trace("obj", "mixed", 6, 500, 50), trace("mtl", "mixed", 6, 400, 40),
            size("obj", "data", "large"), size("obj", "elems", "large"), size("obj", "grouped", "large"), size("obj", "others", "large"), size("mtl", "materials", "large"), size("mtl", "others", "large"), size("obj", "wide", "hundreds"), size("mtl", "wide", "hundreds"),
            size("obj", "oneLine", "huge"), size("mtl", "oneLine", "huge"), size("mtl", "maps", "large"),
            size("obj", "amounts", "found"), size("mtl", "amounts", "found"), size("obj", "heavy", "hundreds"), size("mtl", "heavy", "hundreds"), size("obj", "wide", "found"), size("mtl", "wide", "found"),
            many("obj", "all", "wide"), many("mtl", "all", "wide"),
        ],
        thorough=[
            size("obj", "amounts", "more"), size("mtl", "amounts", "more"), trace("obj", "mixed", 60, 900, 60), trace("mtl", "mixed", 60, 700, 50),
            trace("obj", "groups", 30, 900, 60), trace("obj", "refs", 30, 900, 60),
            size("obj", "amounts", "larger"), size("mtl", "materials", "larger"), size("mtl", "maps", "large"), size("obj", "wide", "more"), size("mtl", "wide", "more"),
            many("obj", "all", "wider"), many("mtl", "all", "wider"), many("obj", "all", "ten"), many("mtl", "all", "ten"),
        ],
    ),
    "C26": dict(
        errors=True, obj=OBJ_ALL, mtl=ALL,
        quick=[
            many("obj", "long", "wide"), many("obj", "layouts", "wide"), many("mtl", "long", "wide"), many("mtl", "layouts", "wide"),
            text("obj", "badAmid", 1), text("obj", "badLong", 3), text("obj", "unknown", 2), text("obj", "args", 2), text("obj", "argsFew", 2), text("obj", "chars1", 3), text("obj", "odd", 2),
            text("obj", "switch", 1), text("obj", "numEdge", 1), text("obj", "anyPlace", 1), text("obj", "refs", 3), text("obj", "counts", 1), text("obj", "foundWords", 1),
            text("mtl", "badAmid", 1), text("mtl", "badLong", 3), text("mtl", "unknown", 1), text("mtl", "args", 2), text("mtl", "mapArgs", 2), text("mtl", "inner", 2), text("mtl", "chars1", 3), text("mtl", "odd", 2),
            text("mtl", "headless", 3, 0), text("mtl", "headlessAll", 2), text("mtl", "switch", 1), text("mtl", "numEdge", 1), text("mtl", "anyPlace", 1), text("mtl", "counts", 1), text("mtl", "foundWords", 1), text("mtl", "options", 2),
            many("obj", "refusals", "wide"), many("mtl", "refusals", "wide"),
            trace("obj", "bad", 200, 20), trace("obj", "mangled", 200, 14), trace("mtl", "bad", 200, 20), trace("mtl", "mangled", 200, 14),
        ],
        thorough=[
            text("obj", "badAmid", 2), text("obj", "badLong", 5), text("obj", "args", 4), text("obj", "chars1", 5), text("obj", "odd", 4),
            text("mtl", "badAmid", 2), text("mtl", "badLong", 5), text("mtl", "args", 4), text("mtl", "mapArgs", 4), text("mtl", "chars1", 5), text("mtl", "odd", 4), text("mtl", "headless", 4, 0), text("mtl", "headlessAll", 3),
            trace("obj", "bad", 3000, 30), trace("obj", "mangled", 3000, 20), trace("mtl", "bad", 3000, 30), trace("mtl", "mangled", 3000, 20),
        ],
    ),
    "C27": dict(
        obj=OBJ_ALL, mtl=ALL,
        quick=[
            swap("obj", "allKinds", 3), swap("obj", "kindsCore", 4), swap("obj", "setCore", 5), swap("obj", "relCore", 4), swap("obj", "sameNames", 4),
            swap("mtl", "scalarsCore", 4), swap("mtl", "coloursCore", 4), swap("mtl", "bumpRefl", 4), swap("mtl", "mapsCore", 5), swap("mtl", "allKinds", 4),
            swap("mtl", "allKinds", 3), swap("mtl", "sectionCore", 5), swap("mtl", "twice", 3), swap("mtl", "mapTwice", 3), swap("mtl", "mapSame", 3),
            swap("obj", "allKinds", 40, 120, 150), swap("obj", "settled", 30, 120, 150), swap("obj", "everything", 30, 90, 100), swap("mtl", "allKinds", 40, 120, 150), swap("mtl", "everything", 30, 90, 100),
            text("obj", "foundWords", 1), text("mtl", "foundWords", 1), trace("obj", "mixed", 100, 40), trace("obj", "settings", 60, 40), trace("mtl", "mixed", 100, 30), trace("mtl", "maps", 60, 30),
            size("obj", "amounts", "found"), size("mtl", "amounts", "found"),
        ],
        thorough=[
            swap("obj", "allKinds", 4), swap("obj", "kindsCore", 5), swap("obj", "setCore", 6), swap("obj", "relCore", 5), swap("obj", "sameNames", 5), swap("obj", "settled", 3), swap("obj", "dataMixed", 3), swap("obj", "kindsCore", 4, 2),
            swap("mtl", "scalarsCore", 6), swap("mtl", "coloursCore", 5), swap("mtl", "bumpRefl", 6), swap("mtl", "mapsCore", 6), swap("mtl", "allKinds", 5), swap("mtl", "sectionCore", 6), swap("mtl", "twice", 4), swap("mtl", "mapTwice", 4), swap("mtl", "allKinds", 4, 2),
            swap("obj", "allKinds", 150, 600, 1500), swap("obj", "settled", 150, 600, 1500), swap("obj", "everything", 100, 400, 1000), swap("mtl", "allKinds", 150, 600, 1500), swap("mtl", "everything", 100, 400, 1000),
            trace("obj", "mixed", 2000, 40), trace("mtl", "mixed", 2000, 40),
        ],
    ),
    "C28": dict(
        obj=OBJ_ALL, mtl=ALL,
        quick=[
            many("obj", "long", "wide"), many("obj", "layouts", "wide"), many("mtl", "long", "wide"), many("mtl", "layouts", "wide"),
            join("obj", "allKinds", "joinRelative", 1, 3), join("obj", "kindsCore", "joinRelative", 2, 2), join("obj", "allKinds", "joinAbsolute", 1, 2), join("obj", "kindsCore", "joinAbsolute", 2, 2),
            join("obj", "allKinds", "joinRelative", 30, 30, 150), join("obj", "everything", "joinRelative", 20, 20, 100), join("obj", "settled", "joinAbsolute", 30, 30, 150),
            join("mtl", "allKinds", "allKinds", 3, 1), join("mtl", "allKinds", "allKinds", 1, 3), join("mtl", "allKinds", "allKinds", 2, 2), join("mtl", "sectionCore", "sectionCore", 3, 3),
            join("mtl", "allKinds", "everything", 30, 30, 150), join("mtl", "everything", "everything", 15, 15, 150),
            join("obj", "settled", "joinRelative", 300, 300, 6), join("mtl", "allKinds", "everything", 300, 300, 6),
            size("obj", "elems", "large"), many("obj", "grouped", "wide"), many("mtl", "sections", "wide"), trace("obj", "refs", 60, 60), trace("obj", "mixed", 60, 60), trace("mtl", "mixed", 60, 40),
            text("obj", "foundWords", 1), text("mtl", "foundWords", 1), size("obj", "amounts", "found"), size("mtl", "amounts", "found"),
        ],
        thorough=[
            join("obj", "allKinds", "joinRelative", 2, 3), join("obj", "kindsCore", "joinRelative", 3, 3), join("obj", "allKinds", "joinAbsolute", 2, 2), join("obj", "kindsCore", "joinAbsolute", 3, 2), join("obj", "setCore", "joinRelative", 4, 2),
            join("mtl", "allKinds", "allKinds", 3, 2), join("mtl", "allKinds", "allKinds", 2, 3), join("mtl", "sectionCore", "sectionCore", 4, 4), join("mtl", "everything", "everything", 2, 1),
            join("obj", "allKinds", "joinRelative", 150, 150, 1500), join("obj", "everything", "joinRelative", 100, 100, 1000), join("obj", "settled", "joinAbsolute", 150, 150, 1500), join("mtl", "allKinds", "everything", 150, 150, 1500),
            trace("obj", "refs", 1000, 60), trace("mtl", "mixed", 1000, 40),
        ],
    ),
    "C25": dict(
        obj=OBJ_ALL, mtl=ALL,
        quick=[
            many("obj", "long", "wide"), many("obj", "layouts", "wide"), many("mtl", "long", "wide"), many("mtl", "layouts", "wide"),
            write("obj", "allKinds", 3), write("obj", "kindsCore", 4), write("obj", "groupsCore", 5), write("obj", "refsCore", 4), write("obj", "setCore", 5), write("obj", "smoothCore", 4), write("obj", "libsCore", 4),
            write("obj", "namesWide", 1), write("obj", "sameNames", 3), write("obj", "settled", 3), write("obj", "everything", 1),
            write("mtl", "allKinds", 3), write("mtl", "everything", 2), write("mtl", "mapsCombined", 2), write("mtl", "mapsWide", 2), write("mtl", "switches", 2), write("mtl", "sectionCore", 4), write("mtl", "twice", 3), write("mtl", "mapTwice", 3),
            write("obj", "settled", 50, 200), write("obj", "settled", 12, 300), write("obj", "allKinds", 30, 200), write("obj", "everything", 60, 100), write("obj", "relCore", 25, 100),
            write("mtl", "allKinds", 60, 100), write("mtl", "everything", 60, 100), write("mtl", "everything", 15, 200),
            trace("obj", "rewritten", 150, 40), trace("obj", "rewrittennumbers", 400, 8), trace("obj", "rewrittennames", 80, 30), trace("obj", "rewrittensettings", 80, 60), trace("obj", "rewrittenrefs", 80, 60), trace("obj", "rewrittensmooth", 60, 60),
            trace("mtl", "rewritten", 150, 40), trace("mtl", "rewrittennumbers", 300, 12), trace("mtl", "rewrittennames", 80, 30), trace("mtl", "rewrittenmaps", 80, 40), trace("mtl", "rewrittenbumprefl", 80, 40), trace("mtl", "rewrittencolours", 60, 40),
            mc("obj", "alikeNames", 4), mc("obj", "kindsCore", 4), mc("mtl", "allKinds", 3), trace("obj", "mixed", 60, 40), trace("mtl", "mixed", 60, 30),
            text("obj", "foundWords", 1), text("mtl", "foundWords", 1), text("obj", "numEdge", 1), text("mtl", "numEdge", 1), size("obj", "amounts", "found"), size("mtl", "amounts", "found"),
        ],
        thorough=[
            write("obj", "kindsCore", 5), write("obj", "groupsCore", 6), write("obj", "settled", 4), write("obj", "namesWide", 2), write("obj", "setCore", 6), write("obj", "refsCore", 5),
            write("mtl", "allKinds", 4), write("mtl", "mapsCombined", 3), write("mtl", "sectionCore", 5),
            write("obj", "settled", 150, 2000), write("obj", "everything", 100, 2000), write("obj", "allKinds", 80, 2000), write("mtl", "everything", 150, 2000), write("mtl", "allKinds", 200, 1000),
            trace("obj", "rewritten", 1500, 60), trace("obj", "rewrittennumbers", 4000, 8), trace("obj", "rewrittennames", 800, 40), trace("obj", "rewrittensettings", 800, 80), trace("obj", "rewrittenrefs", 800, 80),
            trace("mtl", "rewritten", 1500, 60), trace("mtl", "rewrittennumbers", 3000, 12), trace("mtl", "rewrittennames", 800, 40), trace("mtl", "rewrittenmaps", 800, 50), trace("mtl", "rewrittenbumprefl", 800, 50),
        ],
    ),
}

# The invariants of the specification that state a property.
INVARIANTS = {
    "C03": ["InvDataInOrder"], "C04": ["InvReferences"], "C05": ["InvRelative", "InvReferences"], "C06": ["InvAttribution"], "C07": ["InvSettings"],
    "C08": ["InvSmoothing"], "C09": ["InvLibraries"], "C14": ["InvIsolation"], "C16": ["InvColours"], "C17": ["InvScalars"], "C18": ["InvMaps"], "C19": ["InvMaps"],
    # of the generators: what two readings of the same text, or of two texts, have in common
    "C02": ["WholeText"], "C10": ["WholeText"], "C12": ["SameMeaning"], "C15": ["Headless"], "C21": ["OwnAnswers"], "C22": ["PropAppendOnly"], "C23": ["PropTouchesLast"], "C24": ["ByLine", "ClosedForm"],
    "C25": ["RoundTrip"], "C27": ["SameModel"], "C28": ["PutTogether"],
}
