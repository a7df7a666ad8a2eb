#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=m[0], where=m[1]) for m in mech],
                               observe_at=observe or [], hook_needed=None), _t=technique, _n=note))


SAN = "AddressSanitizer and UndefinedBehaviorSanitizer abort on any invalid access. "
ASSUME = " Trusts g++ 13 sanitizers and the independent model in the harness; explores generated cases only, so absence of a violation is evidence, not proof."

prop("C01", "Every grid index addresses its own element, by every access route",
     "For a grid of any rank, element type, storage policy and inclusive bounds (negative, offset or single-cell ones included), however it was constructed, each "
     "index inside the bounds designates exactly one element of its own: a value written through one access syntax is what every other access syntax (const or not) reads "
     "back at that index, and no access touches memory outside the grid's data. The reported lower and upper bounds, dimensions and size are those requested, "
     "element addresses follow the reported strides, and storage is contiguous with the last index fastest (default and lazy storage) or the first index fastest (Fortran storage), "
     "which is also the order in which the storage iterators visit all elements once; assigning a value to a grid sets every element.",
     ["inputs", "configurations"], "All ranks 1-10, bounds, element types, storage and checking policies, construction and access routes.",
     "The existing tests sample a few extents per storage policy and never compare all access routes, const access, far-away bounds, or the lazy storage.",
     ["src/grid/grid.hpp", "src/grid/grid.t", "src/grid/gridstorage.hpp", "src/grid/gridstorage/single-array-storage-base.hpp", "src/grid/gridstorage/single-array-allocation.hpp",
      "src/grid/gridstorage/kokkos-storage.hpp", "src/grid/array.hpp"],
     [("index to offset arithmetic", "SingleArrayGrid*OrderStorageBase::get, updateDataFast, stride; KokkosGridStorage::get"), ("element access operators", "GridBase::operator[] / operator()")],
     "runtime monitoring: shadow-model access monitor under ASan+UBSan",
     SAN + "Every element of thousands of random grids is written and read back through all access routes and compared with an independent offset computation." + ASSUME,
     ["Grid::operator[]", "Grid::operator()", "Grid::get", "getRawData", "begin/end", "stride"])

prop("C02", "Grid copies share one data set through any history of assign and resize",
     "Copying or assigning a grid makes the two grids views of one set of data: from then on, until one of them is assigned something else, a value written through one is read through "
     "all, and a resize through any one of them gives all of them the new bounds and storage, while grids that do not share are never affected. This holds for every storage policy and every "
     "sequence of construction, copy, assignment (self-assignment included), resize, passing by value and destruction, in any order. "
     "The data stays valid as long as one sharer lives and is released exactly once, when the last one is destroyed.",
     ["histories", "configurations"], "All finite histories of construct/copy/assign/resize/write/destroy over any number of handles, for every storage policy.",
     "The tests run fixed two-step scenarios (copy, assign, copy then resize) and look at extents; longer histories, re-assignment after sharing, and lifetime are not reached.",
     ["src/grid/gridstorage/single-array-allocation.hpp", "src/grid/gridstorage/single-array-storage-base.hpp", "src/grid/gridstorage/kokkos-storage.hpp", "src/grid/grid.hpp"],
     [("shared data and resize notifications", "SingleArrayAllocationData::update and its updaters; KokkosGridStorage::update"), ("lazy buffer reuse", "SingleArrayLazyAllocation::resizeImpl")],
     "runtime monitoring: model-based history monitor with lifetime-tracking elements under ASan+UBSan",
     SAN + "Random histories over up to eight handles; after each step every handle's bounds, values and storage identity are compared with a reference model; instrumented elements detect leaks and double destruction." + ASSUME,
     ["Grid copy constructor/assignment/resize/destructor"])

exec(open(os.path.join(HERE, "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "props_more.py")) else None


def main():
    from checks import CHECKS
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = []
    for p in P:
        if p["id"] in CHECKS:
            checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"],
                               thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                               evidence_file="evidence/%s.json" % p["id"], technique=p["_t"], level=CHECKS[p["id"]].get("level", "exploration"),
                               level_note=p["_n"]))
    m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=[],
             notes="No hooks are needed in /repo: the monitors observe public API behaviour and the sanitizers instrument the library sources at compile time.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(checks), "checks")


main()
