"""What each check runs.  Used by check.py and mkmanifest.py."""

FAKE = "the page is simulated: fakedom/ implements the DOM operations the code uses, natively, per the DOM standard; real browsers are assumed to agree with it"
SEEDED = "only the executions generated from the seed were observed; nothing is claimed about others"


def dom(secs_q=25, secs_t=420, cases_q=None, cases_t=None, **kw):
    st = {"kind": "native", "crate": "dom", "secs": {"quick": secs_q, "thorough": secs_t}, "min": {"quick": 500, "thorough": 2000}, "min_distinct": 50}
    if cases_q:
        st["cases"] = {"quick": cases_q, "thorough": cases_t or cases_q * 40}
    st.update(kw)
    return st


def inline(tool, crate, cases_q, cases_t, secs_q=60, secs_t=240, **kw):
    st = {"kind": "inline", "tool": tool, "crate": crate, "secs": {}, "cases": {}}
    for tier, c, s in (("quick", cases_q, secs_q), ("thorough", cases_t, secs_t)):
        if c:
            st["secs"][tier], st["cases"][tier] = s, c
    st.update(kw)
    return st


PROPS = {}


def P(pid, rule, stages, technique, note, assumptions=(FAKE, SEEDED)):
    PROPS[pid] = dict(rule=rule, stages=stages, technique=technique, note=note, assumptions=list(assumptions))


COMB_RULE = ("random combinator programs (join/race/try_join/race_ok over tuples 1-12, arrays and vectors, nested, children that complete, fail, panic, wake at random times from random places) "
             "driven by a random schedule of polls, wakes and drops; a case is distinct by its shape and event history and non-trivial if some child was polled")
P("C01", COMB_RULE, [dom(cases_q=600_000)],
  "runtime monitoring: online oracle recomputes the documented result after every poll of the real combinators under random schedules",
  "oracle observes every poll, completion and output of the instrumented children", (SEEDED,))
P("C02", COMB_RULE, [dom(cases_q=600_000)],
  "runtime monitoring: online trace-specification checker for wake and poll events of the real combinators",
  "every wake, poll and parent-waker use is an event of the monitor", (SEEDED,))
P("C03", COMB_RULE, [dom(cases_q=400_000), inline("asan", "dom", 80_000, 1_500_000, secs_q=30), inline("miri", "dom", 400, 8000, secs_q=45, miriflags="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows")],
  "runtime monitoring: drop-accounting monitor over random lives of the real combinators, natively, under AddressSanitizer and under Miri",
  "every child and output carries a drop counter; the sanitizer and the interpreter watch the memory", (SEEDED,))
MT_NEED = ["binding wakes", "superseded wakes", "wakes after the combinator's end", "wakes during a poll", "dropped while woken"]
P("C04", "random trees of join/race/try_join/race_ok over tuples, arrays and vectors polled, and dropped at random times, by one thread while 1-3 others wake, clone and drop the wakers of the leaves; distinct by shape, polls and kinds of wakes",
  [dom(cases_q=400_000, crate="mt", need=MT_NEED), inline("miri", "mt", 640, 8000, need=MT_NEED), inline("tsan", "mt", 40_000, 600_000, need=MT_NEED)],
  "runtime monitoring: trace-specification checker over real multi-threaded executions, natively, under Miri (data races, undefined behaviour, leaks, weak memory) and under ThreadSanitizer",
  "every wake call, poll and drop on every thread is judged online; Miri explores a different schedule per seed", (SEEDED,))
P("M02", COMB_RULE, [dom(cases_q=400_000)],
  "runtime monitoring: online oracle over random schedules of pend_after and meanwhile",
  "every poll and drop of the wrapped futures is an event", (SEEDED,))

TREE_RULE = ("random apps built from text, elements, all combinators, sequential awaits, select!, slots and lists, mounted at random places, with random gates opened, content replaced, elements rendered again and apps unmounted from outside "
             "and from inside running app code; plus hand-written apps with inline nested futures. A case is distinct by the pages it displayed; the child list of every element is compared with the composition tree at every settled state and inside app code")
P("D01", TREE_RULE, [dom(cases_q=400_000, need=["elements_rendered_again"])], "runtime monitoring: DOM order oracle over random apps on a simulated page",
  "the composition tree recorded by probes in every future is compared with the real child lists")
P("D02", TREE_RULE, [dom(cases_q=400_000, need=["elements_rendered_again"])], "runtime monitoring: DOM content and drop-accounting oracle over random apps on a simulated page",
  "nodes of dropped futures must be gone, all others and foreign nodes must stay, no DOM exception")
P("D03", TREE_RULE, [dom(cases_q=400_000)], "runtime monitoring: mount/unmount oracle over random apps on a simulated page",
  "pages before mounting and after unmounting are compared, and live apps in between")

P("X01", "random programs of timers, event handlers and tasks (bare or inside combinators) that spawn, wake each other and themselves, dispatch events synchronously and burn through the per-run budget, before and after anything is mounted; a case is distinct by its event history and non-trivial if a task was woken",
  [dom(cases_q=80_000, need=["spawned with a combinator"])], "runtime monitoring: online trace-specification checker for spawns, wakes, polls and queued browser callbacks of the real executor",
  "every wake, poll entry/exit and queued callback is an event of the monitor")
P("S01", "random histories of slot operations (replace, clear, set from outside, from the rendered futures, from their drops, while not rendered, from event handlers) with futures that complete, stay or panic on re-poll; a case is distinct by its history",
  [dom(cases_q=80_000)], "runtime monitoring: online reference-model oracle over random slot histories on a simulated page",
  "displayed nodes, polls and drops of every future given to the slot are compared with the model")
LIST_RULE = "random histories of list operations from outside, from inside items and while the list isn't rendered, between siblings and with nested items; a case is distinct by its operation history; page and drops are compared with a reference model after every settle"
for pid, note in [("L01", "item nodes, their order, polls and drops are compared with the model"), ("L02", "rendered rows are compared with the model's data after every settle"),
                  ("L03", "rendered keys, re-use of rendered items and drops are compared with the model"), ("L04", "contents of the list model are compared with a plain vector after each operation")]:
    P(pid, LIST_RULE, [dom(cases_q=80_000)], "runtime monitoring: online reference-model oracle over random list histories on a simulated page", note)
P("W01", "random histories of option lists, user selections and programmatic selections; distinct by history",
  [dom(cases_q=80_000)], "runtime monitoring: online reference-model oracle over random dropdown histories on a simulated page",
  "option elements, selected index and reported value are compared with the model")
P("L05", "random lists (item size, container size, root scroller) and random scrolling, resizing, hiding and changes of the number of items on a page with simulated layout, scroll events and intersection observers; distinct by the sequence of displayed ranges",
  [dom(cases_q=40_000)], "runtime monitoring: layout oracle over random scroll histories on a simulated page",
  "displayed indices, their positions, renderer calls, drops and left-over listeners are checked at every settled state",
  (FAKE, SEEDED, "layout, scroll events and intersection observers are simulated, one column of equal-size items"))
EV_RULE = ("random apps of several event streams and futures (with and without capture and passive, on nested targets, created, polled, moved on from and dropped from outside and in the middle of dispatching) and random events dispatched "
           "from the browser, from app code and from foreign listeners; a case is distinct by its event history")
P("E01", EV_RULE, [dom(cases_q=150_000)], "runtime monitoring: online oracle replays the dispatches each stream must have seen and compares every poll with it",
  "every dispatch, listener call, wake and poll of every stream is an event of the monitor; every named event helper is exercised once")
P("E02", EV_RULE, [dom(cases_q=150_000)], "runtime monitoring: listener census of the simulated page compared with the set of live streams after every step",
  "listeners of every target are counted after every operation; calls of a dropped closure are errors")
P("E03", EV_RULE, [dom(cases_q=150_000)], "runtime monitoring: dispatch-time oracle over random event histories on a simulated page",
  "inside which dispatch each event was handled, and re-entrant polls, are observed")

P("G01", "random apps of one to four parts (slot, dynamic, modeled and diffed list, dropdown, virtualized list with its scrolling and resizing, apps mounted and unmounted, tasks, cells and stores), each cycle the same random operations with new keys and data and then a reset; distinct by parts, operations and resulting sizes",
  [dom(secs_q=60, cases_q=8000, cases_t=200_000, need=["with " + x for x in ("slot", "dynamic list", "modeled list", "diffed list", "dropdown", "virtualized list", "temporary apps and tasks")] + ["one long life", "many lives", "scroll_events"])],
  "runtime monitoring: live bytes (counting allocator), live objects and listeners of the simulated page measured over exponentially many equal cycles of random apps",
  "a case fails if a measure grows in every stretch from 12 to 768 cycles")
P("A01", "an example application or guide program of the repository, with up to three others next to it, driven by a random user (typing, clicks, keys, checking, dragging, scrolling, timers, undo and redo) and unmounted at a random time; distinct by application and the states displayed",
  [dom(secs_q=40, cases_q=40_000, cases_t=2_000_000, crate="apps", need=["app " + a for a in ("todomvc", "counter", "temp_converter", "timer", "crud", "cells", "flight", "circles", "login-flow", "x-bow-playground", "draggable", "big-list")] + [f"guide program {i}" for i in range(9)] + ["neighbours", "neighbours unmounted", "scaled", "undone", "redone", "user events"])],
  "runtime monitoring: the repository's own applications run natively on a simulated page under random users, compared with a model of each after every action",
  "everything displayed is compared with a model of the application after every user action",
  (FAKE, SEEDED, "the sources of the examples are compiled as they are; the clock and the layout are simulated"))
P("M01", "random schedules of futures (finished before, between and during polls, with and without UI) for about forty programs around select! - every number of branches from 1 to 12, branch shape, pattern, kind of future expression, control flow and nesting; distinct by program, bodies entered and polls",
  [dom(cases_q=400_000, crate="sel", control="a program around select! does not compile any more")], "runtime monitoring: trace-specification checker over random schedules of instrumented select! programs on a simulated page",
  "every creation, poll, completion and drop of a branch future and every entry of a body is an event of the monitor; the page is inspected at every body; a program that stops compiling while the rest does is reported")
P("M03", "random style sheets (nested, functional and relative selectors, at-rules of all kinds, @scope, CSS nesting, strings, urls, comments, numbers, escapes, non-ASCII names) built from pieces whose class names are known; expanded by rustc twice in different processes; distinct by source text",
  [{"kind": "css", "crate": "css", "secs": {"quick": 60, "thorough": 500}, "cases": {"quick": 1500, "thorough": 1500}, "rounds": {"quick": 1, "thorough": 40}, "min": {"quick": 1000, "thorough": 3000}, "min_distinct": 800,
    "need": ["sheets with " + f for f in ("comment", "keyword", "escaped", "functional", "conditional group", "scope", "nesting", "other at-rule", "custom property", "backslash or backtick", "same sheet again", "near duplicate")]}],
  "runtime monitoring: the macro is run by rustc on random style sheets of known structure, and a checker compares the sheet its script puts on the page and its constants with that structure",
  "node runs the generated script against a stub document; the sheet it appends and every constant are compared with the pieces", (SEEDED, "the wasm-bindgen macro is a stand-in which exposes the script; that real wasm-bindgen runs it is assumed"))
P("H01", "random trees of all 64 element types, the 22 kinds of input, custom elements and text, built before or while mounted, with random class operations, text changes and contents that finish; distinct by tree and final state",
  [dom(cases_q=400_000, need=["tag:" + t for t in "a area audio b br base button canvas dl data datalist dialog div embed fieldset form frameset hr h1 h2 h3 h4 h5 h6 i iframe img input li label legend link map meta meter ol object optgroup option output p picture pre progress q select source span style th td col colgroup table tr thead tfoot tbody template textarea time track ul video".split()])],
  "runtime monitoring: online reference-model oracle over random element trees and class histories on a simulated page",
  "every node's identity, tag, type, text, classes and children and every completion are compared with the model after every step")

PLAIN = (SEEDED,)
STORE_RULE = ("random histories over one store of a large type (structs, tuples 1-12, enums, generics, skipped and shallow fields, Vec, HashMap, Option, Box, Rc, String, nested and recursive) with paths built step by step, by one static expression, "
              "through references and boxed trait objects; a case is distinct by its operation history and non-trivial if something fired")


def pure(cases_q=250_000, **kw):
    return dom(cases_q=cases_q, crate="pure", **kw)


P("R01", STORE_RULE, [pure()], "runtime monitoring: online reference-model oracle over random histories of accesses and subscriptions",
  "wakes of every subscription are counted around every operation and every poll is compared with the model", PLAIN)
P("R02", STORE_RULE, [pure()], "runtime monitoring: online reference-model oracle over random histories of accesses and subscriptions",
  "wakes of every subscription are counted around every operation and every poll is compared with the model", PLAIN)
P("R03", STORE_RULE, [pure(cases_q=200_000, control="types with derive(Trackable) do not compile any more")], "runtime monitoring: online reference-model oracle compares the whole stored value after every access",
  "the whole stored value is compared with a generic model after every access through every kind of path", PLAIN)
P("R04", STORE_RULE.replace("something fired", "a callback ran"), [pure(cases_q=300_000)], "runtime monitoring: online reference-model oracle over random histories of path-driven loops",
  "every callback, its value, every inner future's polls and drop and every incoming value are events of the monitor", PLAIN)
P("R05", STORE_RULE + "; plus runs of thousands of subscriptions with a bounded number alive, with every allocated byte counted", [pure()],
  "runtime monitoring: waker reference counts, wake accounting and allocation counting over random histories; failures are re-run without the drops to tell who is to blame",
  "references to wakers of dropped subscriptions, their wakes, and live bytes are measured", PLAIN)
P("U01", "random histories of shared and mutable borrows, subscriptions polled as futures and streams, and for_each loops; distinct by operation sequence and non-trivial if something fired", [pure(cases_q=300_000)],
  "runtime monitoring: online reference-model oracle over random reactive-cell histories", "wakes, polls, callbacks and borrows are compared with the model", PLAIN)
