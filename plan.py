"""What each property's check runs, per tier."""


def mc(name, *args, mode="fast", budget=400):
    return {"kind": "mc", "name": name, "args": list(args), "mode": mode, "budget": budget}


def py(module, budget=400):
    return {"kind": "py", "module": module, "budget": budget}


HIST = ("every history of transactions (1-2 moves each, accepted or rejected, three propose/commit/revert protocol variants) over small decision "
        "variables with every operator attached; breadth-first closure over decision assignments plus unmerged depth-2/3 sequences; and every transaction of a "
        "bounded set from each of up to 16 (thorough: 60) assignments of ten larger variables (12 to 330 elements, up to three dimensions) with every operator")
A_FP = "values are compared up to floating-point rounding (relative 1e-9) where the operators round; exactly where they do not"
A_SMALL = "small-scope: violations that need larger arrays, longer histories or deeper operator nesting than the stated bounds are not seen"
A_ORACLE = "the reference evaluator and the move specifications in /verif/cpp are trusted"


def history(quick_comp=True):
    q = [mc("wide", "--wmax", "1", "--no-customs")]
    if quick_comp:
        q.append(mc("comp", "--wmin", "2"))
    t = [mc("wide", "--wmax", "1", "--no-customs", budget=3000), mc("comp", "--wmin", "2", budget=3000),
         mc("wide-asan", "--wmax", "1", "--no-customs", mode="asan", budget=3000)]
    return q, t


PLAN = {}


def add(prop, quick, thorough, bounds, *assumptions, level="model_checking"):
    PLAN[prop] = {"quick": quick, "thorough": thorough, "bounds": bounds, "assumptions": list(assumptions), "level": level}


for p in ("C01", "C02", "C03", "C04", "C05"):
    q, t = history()
    add(p, q, t, HIST, A_FP, A_SMALL, A_ORACLE)
PLAN["C05"]["quick"].append(py("exprs"))
PLAN["C05"]["thorough"].append(py("exprs", 3000))
PLAN["C04"]["quick"].append(py("exprs"))
PLAN["C04"]["thorough"].append(py("exprs", 3000))
PLAN["C05"]["bounds"] += "; and every documented Python expression over every assignment of small variables, none plainly fitting refused"
PLAN["C04"]["bounds"] += "; and the shapes, sizes and bytes Python announces for every expression over small variables"
add("C06", [mc("dec", "--wmax", "-1")], [mc("dec", "--wmax", "1", budget=3000), mc("dec-asan", "--wmax", "-1", mode="asan", budget=3000)],
    "every move sequence (accepted/rejected) over decisions of every kind to closure; default moves and random initialisation under every outcome of "
    "up to 10 random draws from an 8-letter alphabet", A_SMALL, "a random draw is abstracted to a few representative 32-bit outputs")
add("C11", [mc("pair", "--customs-only")], [mc("pair", "--customs-only", budget=3000), mc("pair-asan", "--customs-only", mode="asan", budget=3000)],
    "every interleaving of the steps (initialise, mutate, propagate, accept/reject) of two states of one model, for every pair of scripts", A_SMALL)
add("C13", [mc("wide", "--wmax", "1")], [mc("wide", "--wmax", "1", budget=3000)], HIST, A_FP, A_SMALL)
add("C15", [mc("wide", "--wmax", "1"), mc("comp", "--wmin", "2")], [mc("wide", "--wmax", "1", budget=3000), mc("comp", "--wmin", "2", budget=3000)], HIST, A_FP, A_SMALL, A_ORACLE)
add("C16", [mc("iter", "--wmax", "1")], [mc("iter", "--wmax", "1", budget=3000), mc("iter-asan", "--customs-only", mode="asan", budget=3000)],
    "every walk (increment, decrement, jump, subscript, distance, compare) between every pair of positions over every strided view of small arrays and every mask", A_SMALL)

R = "the reference semantics written down in /verif/py are trusted"
add("C07", [py("assign")], [py("assign", 3000)],
    "every candidate value over an alphabet one beyond the domain on both sides (every sequence up to one beyond the maximum length; every 0/1 matrix; wrong "
    "shapes and huge values), for every kind of decision variable, locked and unlocked, two state indices, with every other kind of variable watched", A_SMALL, R)
add("C08", [py("saveload")], [py("saveload", 3000)],
    "every operator over 21 decision variables (and operator pairs), every domain, every index tuple over small shapes, every dynamic slice from a small "
    "alphabet, every program of 3 (thorough: 4) construction steps over 9 kinds of step; models with up to 104 (thorough: 257) symbols, constraints, operands, members or decisions; saved three ways, loaded three ways, saved again", A_SMALL, R)
add("C09", [py("statesfile")], [py("statesfile", 3000)],
    "every pattern of set/unset states over up to 3 indices (one variable) or 2 indices (two); single holes and single set states among up to 103 states or 12 decisions; every value of every small domain, every saving route, locked "
    "and unlocked; every ordered pair of 29 decision lists for mismatches", A_SMALL, R)
add("C10", [py("lifecycle")], [py("lifecycle", 3000)],
    "every sequence of operations (set, reset, clear, resize, lock, unlock, extend, read) up to the depth stated, over small models with two state indices; every sequence of 3 (thorough: 4) operations on a ladder of 60 symbols with 10^12 paths through it", A_SMALL, R)
add("C12", [py("removal"), mc("graph", "--customs-only")], [py("removal", 3000), mc("graph", "--customs-only", budget=3000)],
    "on the graph itself, every program of 3 (thorough: 4) construction steps with every objective, constraint list and set of held nodes, heeding and ignoring "
    "listeners; through Python, every program of up to 2 (thorough: 3) construction steps over 9 kinds of step, with every objective, every small set of constraints and held symbols; "
    "every program of up to 3 (thorough: 4) steps for the order", A_SMALL, R)
PLAN["C13"]["quick"].append(py("removal"))
PLAN["C13"]["thorough"].append(py("removal", 3000))
add("C17", [py("identity")], [py("identity", 3000)],
    "every pair of symbols of one model and of two models over every operator and its parameters on 21 decision kinds; every pair of programs of up to 2 steps; "
    "every history of 5 (thorough: 6) building, in-place, refused, dropping and removing operations; every enumeration interleaved with every kind of change", A_SMALL, R)
add("C14", [py("gens")], [py("gens", 3000)],
    "every assignment of every tiny instance (weights, distances, demands, times from small alphabets, up to 3-5 items, customers, jobs or locations) of every "
    "generator, all argument forms, and every single-argument malformation", A_SMALL, R, "documented problems were transcribed from the docstrings")
add("C18", [py("damage")], [py("damage", 3000)],
    "six models saved three ways: every cut, with and without zero filling; every header byte with every other value; every byte with 4 (thorough: 13) other "
    "values; every 64/512-byte block lost or swapped; every failing write, seek, tell, read; every old/new overwrite; every member altered at every character, "
    "removed, doubled, exchanged; every symbol type and predecessor exchanged", A_SMALL, R)
add("C19", [mc("utils", "--customs-only")], [mc("utils", "--customs-only", budget=3000), mc("utils-asan", "--customs-only", mode="asan", budget=3000)],
    "every consistent list of up to 5-6 (thorough: 6-7) changes from every 0/1 array of up to 3 elements, and two-pass lists over up to 64 elements in every "
    "strided order; every flat and multi index of every shape of up to 4 (thorough: 5) dimensions of up to 5; every pair of shapes over {state-dependent, 0..3} of up to 3 dimensions; every slice with ends "
    "-9..9, none or extreme and every such step on lengths 0..8; every fraction of up to 24/24 and its operations; every word of up to 4 (thorough: 6) signed terms of six magnitudes, short ones repeated 2000 times", A_SMALL)
PLAN["C15"]["quick"].append(py("indexing"))
PLAN["C15"]["thorough"].append(py("indexing", 3000))
PLAN["C15"]["bounds"] += "; and every index tuple (integers, slices, index symbols) over small shapes against NumPy, every chain of two, every dynamic base"
