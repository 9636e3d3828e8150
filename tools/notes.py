# (technique, level note) per check
TECH["C02"] = ("seeded layout programs, writer routes, import options and low-level read/write chunkings across simulated restarts, against an independent GDSII codec and layout model",
               "Sampled search, not proof: each run exports a random layout on a simulated disk, decodes it with an independent codec, imports it in a fresh library and compares element by element. Trusts the independent codec and model in sim/refgds.py and sim/spec.py.")
TECH["C01"] = ("seeded layouts, destinations and writers on a simulated disk with failing open/write/flush/close, short and interrupted writes, and kills after return, against the fault-free document",
               "Sampled search: every listed fault kind is injected at seeded byte offsets and operations; completeness is judged on what reached the simulated disk without any destructor running, and by an independent decoder. Assumes SVG files are UTF-8.")
TECH["C03"] = ("simulated writer crashes and truncations at seeded (on small files: all) byte offsets, then every reader, against the independently decoded complete file",
               "Sampled search over layouts and cut points (all cut points for a tenth of the seeds).")
TECH["C04"] = ("seeded corruption of files, read errors, short and interrupted reads, with read and step budgets and deep comparison of everything that must not change",
               "Sampled search over corruptions; termination is judged by budgets proportional to file size.")
TECH["C05"] = ("kills and I/O errors at seeded raw operations of the in-place rewrite on a simulated disk, durable bytes checked at every raw operation, retries afterwards",
               "Sampled search; the invariant is evaluated at every raw operation of every run.")
TECH["C06"] = ("seeded clocks, writer routes, cell orders, read chunkings and recording hash engines; single content changes made by an independent encoder",
               "Sampled search over invariances and single content changes.")
TECH["C14"] = ("simulated clock with steps, jumps and step-backs, every timestamp in every written file compared with the readings taken during the call",
               "Sampled search over clock scripts, routes and explicit timestamps. Time zone UTC.")
TECH["C08"] = ("seeded preemptive schedules of real threads, switching only where the interpreter can (calls, returns, backward jumps, stream operations), against each reader running alone",
               "Sampled search over interleavings of 2 to 4 readers; the extension module is atomic (it holds the interpreter lock).")
TECH["C07"] = ("seeded construction and transformation programs with allocation failures, interrupts and hostile fresh-memory patterns injected, against the same query answered without faults",
               "Sampled search over queries and fault placements.")
TECH["C11"] = ("seeded histories of edits, queries, interrupted queries and raising user tests, each answer compared with a never-queried replay and with a layout rebuilt from the contents",
               "Sampled search over histories; exact comparison.")
TECH["C12"] = ("seeded histories of registry operations over several libraries, raising iterables and damaged imports included, run under two seeded memory layouts against a reference model",
               "Sampled search over histories; the model is independent of the code.")
TECH["C10"] = ("seeded construction and evaluation histories of paths and curves with raising user functions, interrupts, failing allocations, failing writes and warnings raised as errors, each answer compared with a path built afresh from the successful steps",
               "Sampled search over histories and fault placements; exact comparison.")
TECH["C13"] = ("seeded whole programs run under simulated memory layouts, fresh-memory contents, clocks, histories and preemptive thread schedules, and in processes with other string hashes, comparing every exported byte",
               "Sampled search over programs and environments; exact comparison.")
TECH["C15"] = ("seeded geometry operations over degenerate, malformed and hostile operands with failing allocations (at every allocation site of the extension), hostile fresh memory, user sequences that raise, lie, change or re-enter, and interrupts, against the same operation undisturbed in a process of its own; memory, references and operands audited after every fault",
               "Sampled search over operands, operations and fault placements; C++ code can be interrupted by failing allocations and user code only.")
TECH["C16"] = ("seeded sessions of user events on a simulated display (pointer gestures, wheel, keys, dialogs with events while they are open, resizing), with user functions that raise and interrupts inside handlers, the picture compared after every event with the layout queried apart",
               "Sampled search over layouts and event histories; the display is a model of Tk's documented geometry.")
TECH["C09"] = ("seeded sessions of whole-API work that share argument objects, run one after another, interleaved by operation and as preempted threads, with failing streams, raising user functions and interrupts in some of them, each compared with the same session alone in a process of its own",
               "Sampled search over sessions, interleavings and faults; arguments and process settings compared after every operation.")
