#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

CB = "async_ui_web_core/src/combinators/"
p("C01", "Combinators return exactly the documented result at the documented moment",
  "For tuples, arrays and vectors of futures of every supported length, join completes exactly when the last child has completed and yields every child's output at that child's own position; race completes as soon as any child has completed and yields the output of a child that completed; try_join completes as soon as a child fails with that child's error or, when all children succeed, with every value at its position; race_ok is the mirror image of try_join, yielding a successful child's value or, when all fail, every error at its position. An empty collection joined (or tried, or with no success to wait for) completes immediately, a race of nobody never.",
  ["inputs", "schedules"], "every container kind and length, every assignment of ready-times and Ok/Err outcomes to children, every order in which children become ready, any nesting of the four combinators",
  "The unit tests use up to three already-ready futures; they never complete children in a different order than declared, over several polls, at larger lengths or nested.",
  [CB+"common/tuple.rs", CB+"common/array.rs", CB+"common/vec.rs", CB+"join", CB+"race", CB+"try_join", CB+"race_ok"],
  [("result collection and early return", CB+"common/*.rs poll"), ("per-combinator policy", CB+"{join,race,try_join,race_ok}/*.rs maybe_return/when_completed")],
  ["value returned from poll", "poll index at which the combinator returned Ready"])
p("C02", "Combinators poll a child only when woken, and never miss a wake",
  "One poll of join, race, try_join or race_ok polls each child at most once, and after its first poll a child is polled again only if its own waker was used since the start of the combinator's poll that last polled it; it is never polled after it completed. Whenever a child's waker is used, at any time, including while the combinator is being polled and including a waker kept from an earlier poll, the task currently waiting on the combinator is woken and the next poll of the combinator polls that child, unless the combinator or that child has finished.",
  ["schedules"], "every interleaving of child wakes, redundant wakes, spurious parent polls, changes of the parent waker and waker clones/drops, for every container kind and nesting",
  "Tests run ready futures under block_on; wake bookkeeping is never exercised with wakes during polling, stale wakers, or a moving parent waker.",
  [CB+"utils/wakers", CB+"common"],
  [("per-child readiness set", CB+"utils/wakers/{array,vec}/readiness*.rs"), ("redirecting child wakers", CB+"utils/wakers/shared_arc.rs, waker_array.rs, waker_vec.rs")],
  ["poll calls on instrumented children", "wake calls on an instrumented parent waker"])
p("C03", "Cancelling or finishing a combinator drops every child and output exactly once",
  "However a combinator's life ends (never polled, dropped between any two polls, run to completion, or a child panicking inside a poll), every child future and every output or error produced by a child is dropped or handed to the caller exactly once, and no memory error or undefined behaviour occurs. A child future that has completed, or that lost a race which has been dropped, is never touched again.",
  ["crash_points", "schedules", "inputs"], "every cancellation point (before first poll, after each poll, inside a panicking child), container kind and length, outcome assignment and wake order",
  "Partially-filled output storage is only reachable by cancelling between polls; no test cancels a combinator.",
  [CB+"common/tuple.rs", CB+"common/array.rs", CB+"common/vec.rs", CB+"utils/wakers/shared_arc.rs"],
  [("manual drop of pending futures and stored items", CB+"common/*.rs PinnedDrop"), ("uninitialised output storage", CB+"common/*.rs MaybeUninit")],
  ["per-object drop counters", "Miri / AddressSanitizer reports"])
p("C04", "Wakers handed to children may be used from any thread",
  "A child of a combinator may clone its waker, move it to another thread and wake or drop it there at any time, including while the combinator is polled, completes or is dropped. No data race, use after free or leak results, and once the wake call has returned the combinator's task has been woken and the child is polled by the next poll that starts afterwards.",
  ["schedules"], "every interleaving of wake, wake_by_ref, clone and drop from other threads with poll and drop of the combinator, for every container kind",
  "All existing tests are single threaded.",
  [CB+"utils/wakers"],
  [("shared wake state behind a mutex", CB+"utils/wakers/{array,vec}"), ("hand-written waker vtable with shared reference count", CB+"utils/wakers/shared_arc.rs")],
  ["ThreadSanitizer / Miri reports", "child polls after cross-thread wakes"])

CTX = "async_ui_web_core/src/context.rs"; NC = "async_ui_web_core/src/node_container.rs"
POS = "async_ui_web_core/src/position.rs"; DR = "async_ui_web_core/src/dropping.rs"
p("D01", "DOM order always equals composition order",
  "At every moment between polls, the children an element has through this framework are exactly the nodes rendered by the currently live futures composed inside it, in the order in which those futures are composed (earlier argument of join, race, try_join, race_ok or of select comes first), no matter in which order the futures started rendering, finished or re-rendered. This holds through arbitrarily nested combinators, elements, sequential awaits and dynamic components such as slots and lists.",
  ["programs", "schedules"], "every composition tree of elements, text, combinators, sequences and dynamic components, and every order in which parts of it appear and disappear",
  "No existing test executes any DOM code, and the property ranges over unbounded composition trees and appearance orders.",
  [CTX, POS, NC, CB+"common"],
  [("position paths assembled by combinators", POS+" wrap/compare"), ("insert before next-higher position", CTX+" add_child"), ("child index given by combinators", CB+"common/*.rs")],
  ["child list of each element after every executor run"])
p("D02", "Dropping a UI future removes exactly the nodes it rendered",
  "When a rendering future is dropped (it lost a race, was replaced, its enclosing async code moved on or was cancelled at any await point), all nodes it put in the document are gone by the time its parent continues, every node belonging to other live futures and every node the framework did not create stays in place, and no DOM operation fails. The same holds for nested elements, for futures dropped before their first poll and for futures that are dropped while in the middle of producing nested content. An element that is kept and rendered again later shows only what is rendered inside it then.",
  ["programs", "crash_points", "schedules"], "every composition tree and every point at which any subset of its futures is dropped",
  "Removal bookkeeping is never exercised by a test; the cases that matter need deep nests being cut at arbitrary points.",
  [CTX, NC, "async_ui_web_core/src/node_sibling.rs", DR, CB+"common"],
  [("removal on drop", NC+" PinnedDrop"), ("suppression of removals beneath a removed ancestor", DR), ("range removal by position", CTX+" remove_child")],
  ["child list of each element, DOM exceptions"])
p("D03", "Mounting attaches a live app; dropping the mount handle removes it all",
  "A mounted future is polled without further action by the caller, renders inside the given node (the document body for the short form) after whatever the node already contained, and keeps running as long as the handle is kept or detached. Dropping the handle, or the root future finishing, drops the whole app and removes all its nodes, leaving the node's previous content untouched and other mounted apps working.",
  ["programs", "histories", "crash_points"], "every app, every sequence of mounting, running, unmounting and remounting any number of apps in the same or different nodes, and every point of unmounting",
  "No test mounts anything.",
  ["async_ui_web/src/mount.rs", NC, "async_ui_web/src/executor.rs"],
  [("root container future", NC+" new_root and its drop"), ("spawn and schedule", "async_ui_web/src/mount.rs mount_at")],
  ["child list of the mount node", "panics and DOM exceptions while unmounting"])
p("X01", "The page executor runs every woken task, once per wake, never re-entrantly",
  "Whenever a task is spawned, or its waker is used (from timers, DOM callbacks, other tasks or the task itself), that task is polled by the time the browser's already-queued callbacks have run, without any further stimulus. Tasks may await anything that does not render, combinators included, whether or not they belong to a mounted app. The app is never polled re-entrantly; however many tasks are woken, at most one browser callback is queued to run them (only an event handled meanwhile may leave its callback behind, harmlessly), and none is queued while nothing is woken.",
  ["schedules", "histories"], "every interleaving of wakes from inside and outside polls, nested synchronous event dispatch and timer callbacks",
  "The executor needs a browser event loop; no test runs it.",
  ["async_ui_web_core/src/executor.rs", "async_ui_web/src/executor.rs"],
  [("scheduled and active flags", "async_ui_web_core/src/executor.rs run_now/schedule"), ("app-wide local executor", "async_ui_web/src/executor.rs")],
  ["browser timer queue", "poll enter/exit of instrumented tasks"])

p("S01", "A dynamic slot shows the most recently set future and nothing else",
  "After the app settles, a rendered slot displays exactly the future most recently set, or nothing if the slot was last cleared, at the slot's own place among its siblings. The previously set future is dropped and its nodes removed, the new future is polled on its own wakes, and setting or clearing before, during or after rendering (also from inside the displayed future) is never lost.",
  ["histories", "schedules"], "every sequence of set, clear, render and stop-rendering, interleaved with wakes and with changes of neighbouring content",
  "No test runs the component.",
  ["async_ui_web/src/components/dynamic_slot.rs"],
  [("message channel with waker", "async_ui_web/src/components/dynamic_slot.rs render/set_future")], ["slot's part of the child list", "drop events of slot futures"])
LD = "async_ui_web/src/lists/"
p("L01", "A dynamic list displays its items in the order its operations prescribe",
  "After the app settles, a rendered dynamic list shows exactly the items currently in it, each item's nodes contiguous, in the order given by its sequence of insert, replace, remove, move, swap and retain operations as documented (a missing or absent 'before' key means the end), with every item future polled on its wakes and items keeping their state and nodes when moved. This holds whether operations happen before rendering, while rendered, or while temporarily not rendered, and content around the list is never disturbed.",
  ["histories", "inputs"], "every sequence of list operations with every choice of keys (equal, adjacent, missing, first, last), items rendering any changing number of nodes, lists within lists",
  "No test runs the list; adjacency and missing-key cases need specific operation sequences.",
  [LD+"dynamic_list.rs", "async_ui_web_core/src/node_sibling.rs"],
  [("start/end markers", LD+"dynamic_list.rs"), ("moving marker ranges", LD+"dynamic_list.rs move_nodes_before")], ["list's part of the child list, item identities"])
p("L02", "A modeled list shows its model after every update and reuses unchanged items",
  "After each update, a modeled list displays one item per element of the given model in the model's order, whatever edits were made to the model since the last update and even if a different model, a clone or a raw-edited model is passed. The renderer is called exactly once for each key newly present, keys that stayed keep their existing item (state and nodes), and items of keys that left are dropped.",
  ["histories", "inputs"], "every sequence of model edits (insert, remove, pop, push, swap, move, raw edit, replacement, clone) between updates, any number of models, distinct keys",
  "No test runs the list; the change log is trimmed and versioned, so only particular edit histories take each path.",
  [LD+"modeled_list.rs"], [("bounded change log and versions", LD+"modeled_list.rs add_change/update"), ("rebuild path", LD+"modeled_list.rs update")],
  ["item order, renderer calls, item identities"])
p("L03", "A diffed list shows exactly the latest key vector and reuses kept items",
  "After each update with a vector of distinct keys, a diffed list displays one item per key in that vector's order. The renderer is called exactly once for each key that was not in the previous vector, kept keys keep their existing item (state and nodes), and items of removed keys are dropped.",
  ["inputs", "histories"], "every sequence of key vectors without duplicates",
  "No test runs the list; wrong orders arise only for particular permutation pairs.",
  [LD+"diffed_list.rs"], [("one-pass diff", LD+"diffed_list.rs update")], ["item order, renderer calls, item identities"])
p("L04", "A list model behaves as the plain vector it wraps",
  "Every operation of a list model has the same result and leaves the same contents as the corresponding vector operation (moving an item being remove followed by insert at the destination), including when it is cloned or edited raw.",
  ["histories", "inputs"], "every sequence of model operations and index arguments in range",
  "No test touches the model type.",
  [LD+"modeled_list.rs"], [("wrapped vector operations", LD+"modeled_list.rs ListModel")], ["contents after each operation"])
p("L05", "A virtualized list renders a contiguous run of items covering the viewport",
  "Once scrolling, resizing and changes of the number of items have settled, also while the list is not laid out (display: none) or not rendered, a rendered virtualized list of equal-size items displays exactly one contiguous run of indices in increasing order, inside the current number of items, that covers every item intersecting the visible part of the scroll container and, as long as no more than 200 items have to be rendered at once, is not many times longer than that; the renderer is called once per displayed stretch of an index and indices that left are dropped. When rendering stops, the list leaves no event listener or observer behind.",
  ["histories", "inputs"], "every sequence of scroll positions, container sizes, item sizes and item counts",
  "No test runs the list; it needs layout and an intersection observer.",
  [LD+"virtualized_list.rs"], [("visible range computation", LD+"virtualized_list.rs update_visible"), ("scroll and intersection wakes", LD+"virtualized_list.rs render")],
  ["displayed indices, simulated layout, listener registry"])
p("W01", "A dropdown offers exactly the given options in order and keeps the selection",
  "After options are updated, the dropdown contains one entry per given option, in the given order, with the given text; the previously selected option stays selected if it is still offered. The value reported is the option the user or program last selected, as long as it is offered; after a deselection it is none.",
  ["inputs", "histories"], "every sequence of option lists without duplicates, user selections and programmatic selections",
  "No test runs the component.",
  ["async_ui_web/src/components/dropdown.rs"], [("option diff", "async_ui_web/src/components/dropdown.rs update_options")], ["option elements, selected index, reported value"])

EH = "async_ui_web_html/src/event_handling.rs"
p("E01", "An event stream delivers events dispatched after its first poll",
  "After it has first been polled, an event future or stream wakes its task for every matching event dispatched at its target and the next poll yields the latest not-yet-yielded one; it yields nothing that was not dispatched, never yields the same event twice, never ends, and independent streams on the same target each get the event. Capture and passive options set before the first poll are honoured.",
  ["schedules", "histories"], "every interleaving of polls, dispatches (nested and repeated) and stream creations and drops on any targets and event names",
  "No test dispatches an event.",
  [EH, "async_ui_web_html/src/common_events.rs"], [("listener closure and shared slot", EH+" poll_next")], ["events yielded, listener registry"])
p("E02", "Event listeners exist only while their stream is live",
  "An event future or stream registers exactly one listener, on its first poll, and that listener is gone once the stream is dropped, whatever options it was created with. No callback into a dropped stream ever happens, also when streams are dropped or created in the middle of dispatching an event.",
  ["histories", "configurations", "schedules"], "every combination of options and every interleaving of creation, polling, dispatch and drop",
  "No test registers a listener.",
  [EH], [("listener registration and removal", EH+" poll_next/drop")], ["listener registry of the event target", "calls of dead callbacks"])
p("E03", "Event handling code runs synchronously inside the event dispatch",
  "When an event is dispatched from the browser to a waiting app, the app code awaiting it runs before the dispatch returns, so preventing the default action there takes effect; if the event arises while the app is already running (a programmatic click, for example), the app handles it without re-entrancy before control goes back to the browser.",
  ["schedules", "histories"], "every app structure between the listener and the mounted root and every nesting of dispatches",
  "No test dispatches an event.",
  [EH, "async_ui_web_core/src/executor.rs"], [("run immediately from listener", EH+" closure -> run_now")], ["default-prevented flag on return from dispatch"])
p("M01", "select! runs exactly the branch of the first future to finish",
  "select! drives all its futures concurrently, binds the output of one that finished first to its pattern, evaluates exactly that branch and its value, and has dropped the other futures (and their UI) before the branch body runs. It accepts any future expression and any expression or block as body, with or without the commas that match arms may leave out, and control flow such as return, break and ? in a branch body acts on the enclosing function.",
  ["programs", "schedules"], "every number and shape of branches, output types and finishing orders",
  "No test uses the macro.",
  ["async_ui_web_macros/src/select.rs"], [("expansion to a race", "async_ui_web_macros/src/select.rs generate")], ["branch executed, drop order"])
p("M02", "Running an effect alongside a future never ends or outlives it",
  "Turning a future into a never-finishing one drops it when it completes, never polls it again and never completes. Running an effect meanwhile a main future completes exactly when the main future does, with its output, keeps the effect running (and displayed) until then even if the effect finishes first, and drops it then.",
  ["schedules"], "every relative order of completion and every cancellation point",
  "Only doc-tests that are never executed mention it.",
  [CB+"extras/mod.rs"], [("pend after completion", CB+"extras/mod.rs PendAfter"), ("race with pended effect", CB+"extras/mod.rs meanwhile")], ["polls, drops, outputs"])
p("M03", "css! renames exactly the class selectors and exposes each renamed name",
  "The css! macro puts the given style sheet on the page with every class selector, and nothing else, suffixed by one postfix. The postfix depends only on the sheet: the same sheet gets the same postfix in every compilation, sheets with different text get different ones. For every distinct class it defines a constant (dashes, and other ASCII punctuation that only escapes can bring in, turned to underscores; a class named like a keyword has a raw identifier) whose value is exactly the class's name in the sheet on the page.",
  ["inputs"], "every valid style sheet: nested, relative and functional selectors, at-rules with and without rule blocks, @scope, CSS nesting, strings, urls, comments, numbers, non-ASCII names, escapes; class names made of ASCII characters and characters allowed in Rust identifiers, no two of which in a sheet give the same constant's name",
  "No test expands the macro.",
  ["async_ui_web_macros/src/css.rs"], [("class token positions", "async_ui_web_macros/src/css.rs find_classes"), ("rewriting", "async_ui_web_macros/src/css.rs generate")], ["generated sheet and constants"])
p("H01", "Elements, text and class helpers produce exactly the described DOM",
  "Each element constructor creates an element of the tag it is named for and gives it the interface type browsers give that element, rendering puts that same element in place and its content inside it, and the render future completes exactly when its content does. Text renders as a single text node with exactly the given text, and the class helpers leave the element with exactly the class set described by their sequence of calls.",
  ["inputs", "histories"], "every element type, text content, and sequence of class operations",
  "No test creates an element.",
  ["async_ui_web_html/src/common_components.rs", "async_ui_web_html/src/text_node.rs", "async_ui_web/src/shortcuts.rs", NC],
  [("component table", "async_ui_web_html/src/common_components.rs"), ("class list shortcuts", "async_ui_web/src/shortcuts.rs")], ["created elements"])

p("R01", "A change subscription fires for every change at or above its path",
  "After a change subscription has been polled once, any later mutable access (or explicit notification) at its path or at any path that encloses it wakes its task and makes its next poll fire, until it fires; a bubbling subscription fires likewise for its own path and every path inside it. Two paths that lead to the same place through fields, variants, indices, keys, references or boxes are the same path for this purpose.",
  ["histories", "programs", "schedules"], "every data shape, every pair of listened and mutated path, every interleaving of subscribe, poll, mutate and drop of any number of subscriptions",
  "The few tests check a handful of fixed paths in one struct.",
  ["x-bow/src/until_change.rs", "x-bow/src/wakers.rs", "x-bow/src/hash_visitor.rs", "x-bow/src/impls", "x-bow-macros/src/generate.rs"],
  [("listeners keyed by path hash", "x-bow/src/wakers.rs"), ("prefix registration", "x-bow/src/hash_visitor.rs"), ("version sums", "x-bow/src/until_change.rs poll_next")], ["stream items and waker calls"])
p("R02", "A change subscription stays silent for changes elsewhere",
  "A change subscription does not fire and is not woken by mutable access at a sibling path or strictly inside its own path, nor a bubbling one by access at an enclosing or sibling path, nor any by shared access; once it has fired for a change it does not fire again until another relevant change.",
  ["histories", "programs"], "every data shape, pair of paths and history of subscriptions (hash collisions of 64-bit path hashes aside)",
  "The few tests check a handful of fixed paths in one struct.",
  ["x-bow/src/until_change.rs", "x-bow/src/hash_visitor.rs", "x-bow/src/impls", "x-bow-macros/src/generate.rs"],
  [("path hashing with depth", "x-bow/src/hash.rs, x-bow/src/hash_visitor.rs")], ["stream items and waker calls"])
p("R03", "Paths read and write exactly the data they name",
  "Borrowing, setting, taking or cloning through a path acts on exactly the part of the stored data that the path names (field, tuple position, enum variant's field, option, vector index, map key, box or reference content), reports absence exactly when that part does not currently exist, and never alters any other part. Derived paths for generic, nested, enum, tuple and skipped-field types obey the same rule.",
  ["inputs", "programs", "histories"], "every supported data shape and sequence of reads and writes through any paths",
  "Tests only type-check or cover a few fixed shapes.",
  ["x-bow/src/path_ext.rs", "x-bow/src/impls", "x-bow-macros/src/generate.rs", "x-bow/src/path_impl.rs"],
  [("projections", "x-bow/src/impls/stdlib, x-bow-macros/src/generate.rs")], ["store contents against a plain data model"])
p("R04", "Path-driven loops see every settled value",
  "for_each, for_each_async, signal_stream and bind_for_each call back (or yield) once at the start where documented, and after every relevant change they call back again on the next poll with the then-current data, skipping only data that is absent; for_each_async drops the previous unfinished callback future when a newer change arrives; bind_for_each writes each settled incoming value into the path without echoing it to its own callback and finishes when the incoming stream ends.",
  ["histories", "schedules"], "every interleaving of changes, incoming values, absence of data and polls",
  "Doc-tests exercise one change each.",
  ["x-bow/src/path_ext", "x-bow/src/path_ext.rs"],
  [("loop futures", "x-bow/src/path_ext/*.rs")], ["callback log, drops of callback futures, store contents"])
p("R05", "Dropping subscriptions leaves no trace and disturbs no other subscription",
  "Once a subscription has been dropped its waker is released and never used again, all other subscriptions of the same store or cell keep working unchanged, and the memory a store or cell uses for subscriptions stays bounded by the largest number alive at once, however many are created and dropped over time.",
  ["histories"], "every sequence of creating, polling, waking and dropping subscriptions on any paths, in any order",
  "No test drops subscriptions in varied orders or measures retention.",
  ["x-bow/src/wakers.rs", "async_ui_internal_utils/src/wakers_arena.rs"],
  [("intrusive lists in one arena with a free list", "async_ui_internal_utils/src/wakers_arena.rs")], ["waker reference counts, waker calls, allocation counts"])
p("U01", "A reactive cell notifies every waiting subscriber of every mutation",
  "A reactive cell holds the last value written, follows the usual shared/exclusive borrow rules, and after any mutable borrow ends every subscription that has been polled is woken and fires on its next poll, exactly once per batch of mutations and never without one. Its for-each loop calls back with the initial value and then with every settled value.",
  ["histories", "schedules"], "every interleaving of borrows, mutations, polls, subscriptions created and dropped",
  "One doc-test compiles it; no test runs a history.",
  ["async_ui_internal_utils/src/reactive_cell"], [("version and listeners", "async_ui_internal_utils/src/reactive_cell/until_change.rs"), ("notify on guard drop", "async_ui_internal_utils/src/reactive_cell/borrow_mut.rs")], ["stream items and waker calls"])
p("G01", "An app that runs for long holds on to nothing it no longer uses",
  "However long an app runs, the memory, DOM nodes, event listeners, observers and callbacks held by it and by everything it uses (elements, text, event streams, slots, lists, dropdowns, virtualized lists, combinators, tasks, mounts, reactive cells and stores) stay bounded in terms of what it currently shows and subscribes to. Repeating operations that bring it back to an equal state, any number of times and with new data every time, does not make them grow; the same holds for mounting and unmounting whole apps, and for rendering the same element again and again.",
  ["histories"], "every repeated sequence of operations on every kind of component, number of repetitions, and fresh or repeated keys and data",
  "Leaks show only over many repetitions and in the allocator or on the page; the tests run each operation once or twice and measure neither.",
  ["async_ui_web/src", "async_ui_web_core/src", "async_ui_web_html/src", "x-bow/src", "async_ui_internal_utils/src"],
  [("change logs that must be consumed", "async_ui_web/src/lists/modeled_list.rs, list_model"), ("maps of rendered items by key", "async_ui_web/src/lists/{dynamic,diffed}_list.rs, async_ui_web/src/components"),
   ("listeners, closures and observers released on drop", "async_ui_web_html/src/event_handling.rs, async_ui_web/src/lists/virtualized_list.rs"), ("tasks and wakers released when finished", "async_ui_web_core/src/executor.rs, combinators/utils/wakers"),
   ("nodes released with the futures that rendered them", "async_ui_web_core/src/node_container.rs, node_sibling.rs")],
  ["live bytes in a counting allocator, live objects and listeners of the page after 12, 24, ... cycles"])
p("A01", "The example applications show what their users did",
  "The example applications of the repository (todomvc, counter, temperature converter, timer, CRUD, cells, flight booker, circles, login flow, x-bow playground, draggable list, big list) and the programs of the guide, mounted alone or next to each other and driven by their users' events (typing, clicking, key presses, checking, dragging, scrolling, going back in the history of circles, letting time pass), show after every action exactly what their state then says: the right texts, values, attributes, classes and order of items. Unmounting one at any time leaves nothing of it on the page and disturbs no other.",
  ["histories", "inputs"], "every sequence of user actions with every timing, on every application and every set of neighbours",
  "The examples are only ever compiled; no test runs one, and what they rely on is all components of the library working together.",
  ["examples", "async_ui_web/src", "async_ui_web_core/src", "async_ui_web_html/src", "x-bow/src"],
  [("lists, slots, combinators and select! together", "examples/web-todomvc/src/app.rs, examples/web-simple-examples/src"), ("stores driving pages", "examples/x-bow-playground/src/lib.rs, examples/web-todomvc/src/app.rs"), ("virtualized scrolling", "examples/big-list/src/app.rs"), ("programs of the guide", "examples/guide-project/src")],
  ["texts, values, attributes, classes and order of the elements on the page, exceptions reaching the page, nodes and listeners left behind"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
