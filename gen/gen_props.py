#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one place for both)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "the simulator's schedule: preemption at control-flow edges and single machine instructions"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, claimed=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               observe_at=observe, hook_needed=None), claimed=claimed, na=na))

ALL = ["src/lib.rs", "src/images.rs", "src/yuv_error.rs"]
prop("C01", "Parallel conversion equals sequential conversion, and ends",
     "With the `rayon` feature every conversion returns the same success or error and leaves byte for byte the same destination buffers as the build without it, whatever the number of worker threads, the order in which rows are scheduled, how long any worker is stalled, and whether the callers are threads of their own or tasks of the same pool. It always returns once stalled workers go on.",
     ["schedules", "inputs", "configurations"],
     "every public conversion function, image size, row padding and colour parameters; every pool size and every interleaving of the pool's workers and the calling threads, including stalls of any worker at any point",
     "The tests run one build at a time and never compare the two builds; the machine decides the one schedule they see, on images whose rows are all alike in length and alignment.",
     ["src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/yuv_nv_to_rgba.rs", "src/yuv_p16_rgba_p16.rs", "src/yuy2_to_rgb.rs", "src/rgb_to_nv_p16.rs", "src/sharpyuv/sharp_rgba_to_yuv.rs", "src/geometry.rs", "Cargo.toml"],
     [("rows handed to rayon as disjoint chunks", "par_chunks_exact_mut / zip in every conversion under cfg(feature = \"rayon\")"), ("sequential twin of every row loop", "cfg(not(feature = \"rayon\")) branches")],
     ["destination planes and returned status of both builds"],
     claimed="both builds run under the simulator; the parallel one's threads, futexes, yields and stalls are scheduled by the seed; full buffers compared with the sequential build's")
prop("C02", "Concurrent callers do not influence one another",
     "When several threads convert at the same time, each with its own destination and possibly reading the same source images, every call returns exactly what it returns alone: same status, same destination bytes. This holds for every interleaving, down to single instructions, and whether the callers' parameters are equal, nearly equal or unrelated.",
     ["schedules", "histories", "inputs"],
     "two to six callers, any public functions and parameters, every interleaving of their instructions and any stall of any caller",
     "No test calls the library from two threads with overlapping executions; hidden shared state (a static, a cached table, a scratch buffer) shows only in particular interleavings.",
     ALL + ["src/yuv_support.rs", "src/internals.rs", "src/shuffle.rs"],
     [("no mutable state outside the arguments and the stack", "every conversion takes its parameters by value and its images by reference"), ("tables are built per call or are constants", "src/yuv_support.rs, src/sharpyuv")],
     ["destination planes and status of every caller"],
     claimed="the callers are simulated threads of one process; each result is compared with the same call in a pristine process")
prop("C03", "The result is a function of the arguments alone",
     "The image a successful conversion produces, and whether it succeeds, depend only on the sizes, the pixels of the source and the parameters. Earlier calls in the process (of any kind, number and similarity), what the destination held before, the bytes in row padding, where the buffers lie and how they are aligned, stack and heap garbage, the clock and random numbers make no difference.",
     ["histories", "inputs", "configurations"],
     "every function and image; every history of up to hundreds of other calls in the same process on the same or other buffers; every prior content and placement of every buffer",
     "Tests use fresh zeroed buffers, one or two calls per process, no row padding and the allocator's alignment; a pixel that is never written reads as zero there.",
     ALL + ["src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/yuv_p16_rgba_p16.rs", "src/sharpyuv/sharp_rgba_to_yuv.rs", "src/rgb_to_y.rs"],
     [("every pixel of the destination is written", "row loops: SIMD body, then scalar remainder from where the body stopped"), ("no state kept between calls", "whole crate")],
     ["destination pixels and status"],
     claimed="histories of calls in one simulated process with garbage everywhere, compared with a pristine process given a different prior destination")
prop("C04", "A crash leaves only the destination unfinished; redoing it is exact",
     "If the process dies, or is refused memory, at any instant during conversions over images in memory that outlives it, then the sources and everything outside the destination images are as they were, and destinations of calls that had returned are complete. Repeating the calls in a fresh process over the half-written destinations, possibly interrupted again, gives exactly the result of an undisturbed run.",
     ["crash_points", "fault_sequences", "schedules"],
     "every instant (control-flow edge, and single instructions after it) of every conversion, one or more callers, one or two deaths, every allocation that can be refused",
     "Tests never interrupt a conversion; an in-place temporary edit that is undone before return, or a result that builds on the old destination, passes them all.",
     ALL + ["src/sharpyuv/sharp_rgba_to_yuv.rs", "src/geometry.rs", "src/yuv_to_yuy2.rs"],
     [("sources are only borrowed immutably", "conversion signatures"), ("destinations are write-only", "row loops never read what they write"), ("working memory is private", "src/sharpyuv, src/geometry.rs")],
     ["shared image memory after the death and after the retry"],
     claimed="simulated process death at seeded steps and instructions over memory that survives it, allocation failure, fresh processes retrying")
prop("C05", "A conversion touches nothing but the pixels it is asked for",
     "At no instant does a conversion read or write outside the buffers it is given, write to a source, or write (not even the same value back) to row padding or to any byte around the destination image. A neighbour that owns those bytes and writes them during the call never loses a write.",
     ["inputs", "schedules", "configurations"],
     "every function, size, padding, placement at either end of mapped memory, CPU model, and every instant of the call at which the neighbour writes",
     "Tests look at buffers after the call and have nothing around them; a read past the end, or a vector store that puts the old value back, leaves no trace there.",
     ALL + ["src/sse/", "src/avx2/", "src/avx512bw/", "src/yuv_to_rgba.rs", "src/yuv_p16_rgba_p16.rs"],
     [("sizes are checked before pointers are used", "check_* in src/images.rs and src/yuv_error.rs"), ("remainders go through stack buffers", "SIMD row functions copy partial vectors")],
     ["guard pages, read-only sources, racing neighbour bytes"],
     claimed="images end at inaccessible pages, sources are read-only pages, a simulated neighbour writes padding and surroundings at preemption points and its writes are checked")
prop("C06", "A frame converted in bands equals the frame converted at once",
     "Converting a frame in bands of rows that start at even rows, each band through its own call over its part of the same buffers, in any order, by any number of callers at once, and with bands redone after a crash, gives byte for byte the same destination as one call over the whole frame, and every band is accepted. (Sharp YUV, rotation and mirroring excepted: they look across rows.)",
     ["schedules", "crash_points", "inputs"],
     "every such function, every cut of the frame into bands at even rows, every order, assignment to callers and interleaving, a crash at any instant",
     "Tests convert whole frames only; errors in how rows pair up, in the treatment of the last row, or in state carried from row to row need cuts and orders they do not have.",
     ALL + ["src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/yuv_to_yuy2.rs", "src/yuy2_to_yuv.rs", "src/yuv_p16_rgba_p16.rs"],
     [("rows (or pairs of rows) are independent", "row loops over chunks of one or two rows"), ("odd last row handled on its own", "remainder branches for 4:2:0")],
     ["destination planes after all bands"],
     claimed="bands as calls of simulated callers in seeded order and schedule, with crash and retry, compared with the one-call frame")
prop("C07", "The same image on every CPU model",
     "A conversion produces the same image on every x86-64 CPU model, from one without any vector extension beyond SSE2 to one with all of them, so that frames and bands of frames (starting at even rows) can be spread over machines with different CPUs and, after one of them dies at any point, be redone by another: the status is the same; functions that only move samples (channel shuffles, mirroring, rotation) agree bit for bit; in all others no sample of the image differs by more than 4 code values of its bit depth, alpha included, for sources whose samples are valid for their bit depth and, in limited range, nominal.",
     ["configurations", "crash_points", "schedules", "inputs"],
     "every function, size, parameter set and mode; every assignment of calls or bands to machines of ten x86-64 CPU models, every point at which a machine dies and hands over",
     "Tests run on one CPU model, the build machine's, and check constant colours with wide tolerances; a back end chosen only on another model, or wrong only in some columns, is never met.",
     ["src/sse/", "src/avx2/", "src/avx512bw/", "src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/yuv_nv_to_rgba.rs", "src/yuv_p16_rgba_p16.rs"],
     [("one back end per instruction set, chosen at run time", "is_x86_feature_detected! in every conversion"), ("vector rows finish in scalar loops", "ProcessedOffset of every row handler")],
     ["destination samples decoded from planes, and returned status, on every machine"],
     claimed="a simulated fleet of machines with different CPU models shares frames, dies at seeded steps and hands over; the image is compared with a machine's that has no vector extensions")
prop("C08", "A bad geometry is refused whole; a good one is never refused",
     "A conversion given a plane too short for its size and stride, a stride shorter than a row, images of different sizes or dimensions whose product overflows returns an error, and one given an empty image does nothing; in both cases no byte is written, there is no panic, no memory fault and no endless loop. Images whose planes hold exactly stride times height elements are accepted and converted exactly, also right before and after such refusals. Planes that are longer than needed, or that lack the padding of their last row, are either refused or converted exactly.",
     ["fault_sequences", "inputs", "histories"],
     "every function and plane; every truncated, mis-strided, empty, mismatched, overflowing or changed-under-way descriptor, within any session of good and bad calls",
     "A handful of tests give one function one bad size; no test checks that a refusal leaves the destination untouched or that sizes near overflow are refused by every function.",
     ["src/images.rs", "src/yuv_error.rs", "src/lib.rs", "src/from_identity.rs", "src/yuv_to_yuy2.rs", "src/ar30_rgb.rs", "src/geometry.rs"],
     [("check_constraints and the check_* helpers, called before anything is written", "src/images.rs, src/yuv_error.rs"), ("overflow-checked size arithmetic", "src/yuv_error.rs")],
     ["status, destination bytes, process exit"],
     claimed="sessions of good calls and calls with injected geometry faults in one simulated process; recorded findings are listed in known_findings.txt")
prop("C09", "A stalled caller delays nobody",
     "A thread that stops for ever at any point inside a conversion does not keep any other thread's conversion from returning, with its exact result, without waiting and after no more work than it needs alone.",
     ["schedules", "fault_sequences"],
     "every set of callers and calls, every point inside any call at which a caller stops for good (build without the thread pool)",
     "Tests have no stalled threads; a lock, a once-cell under initialisation or a spin on shared state delays others only when its holder stops at the wrong instruction.",
     ALL + ["src/yuv_support.rs", "src/sharpyuv/sharp_rgba_to_yuv.rs"],
     [("no locks, no waiting, no shared state", "whole crate in the build without rayon")],
     ["completion, blocking operations and step counts of the other callers"],
     claimed="callers frozen for ever at seeded steps; the others must finish within bounded steps without blocking")
prop("C10", "Memory: none kept, little used, refusal survivable",
     "No conversion keeps heap memory after it returns, and apart from sharp YUV and rotation none needs more than a small constant amount of it (2 KiB) whatever the image size. When the allocator refuses a request at any point, a call either completes exactly, returns an error or ends the process through the allocation-failure abort; it never returns a wrong image, and calls that need no memory are not affected.",
     ["fault_sequences", "histories", "inputs"],
     "every function and image size, repeated calls, and every allocation from any one on refused",
     "Tests never count allocations and never fail one; a leak or a frame-sized temporary changes no pixel.",
     ["src/sharpyuv/sharp_rgba_to_yuv.rs", "src/geometry.rs", "src/ycgco_to_rgb.rs", "src/shuffle.rs", "src/lib.rs"],
     [("stack buffers for remainders", "SIMD row functions"), ("Vec scratch only in sharp YUV and rotation", "src/sharpyuv, src/geometry.rs")],
     ["allocator seam: bytes held at once, bytes kept, results under refusal"],
     claimed="the allocator is the simulator's: it counts, hands out dirty memory and refuses requests from a seeded one on")

prop("C11", "Every conversion computes what its name says",
     "On every x86-64 CPU model a conversion of well-formed images whose samples are valid for their bit depth (and, in limited range, nominal) succeeds, and every sample of its result is what the textbook definition of the conversion named gives: each component taken from and put to the place, channel order, packing, bit alignment and byte order that the function's name and parameters say; luma and chroma by the Kr and Kb of the chosen standard, range and bit depth (YCgCo and RemoteFX by their own equations), values clamped to the sample's range; chroma of subsampled formats is the mean of the pixels it covers (sharp YUV: where these are equal; packed 4:2:2 to 4:2:0: the upper row's) and is repeated when decoding; rotation is counterclockwise; alpha is carried over unchanged, or opaque where the source has none, and colours are multiplied by it where asked for. Samples that are only moved (shuffles, mirroring, rotation, alpha of unchanged depth) are exact; resampling 4:2:2 and half-float conversion are within 1 code value (thousandths of one for half floats). Other results are within 2 code values of the exact real-numbered one (RGB to YUV, GBR, gray, YCgCo, AR30, Professional mode) or 4 (YUV to RGB, sharp YUV, RemoteFX, RGB to YUV in Fast mode); 16-bit: 5 for RGB to YUV and 8 for YUV to RGB; YUV to RGB in Fast mode: 4 plus what 6-bit coefficients ending at 127/64 lose.",
     ["configurations", "crash_points", "histories", "inputs"],
     "every function, sample value, size, padding, matrix, range, depth, mode and CPU model; every sequence of such calls and every hand-over of unfinished frames or bands after a crash",
     "Tests convert constant colours in a few functions on one CPU model and accept wide errors; a wrong coefficient, order, rounding, shift or byte order in one of some 6000 combinations of function, back end and parameter shows in none of them.",
     ["src/yuv_support.rs", "src/built_coefficients.rs", "src/internals.rs", "src/shuffle.rs", "src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/yuv_nv_to_rgba.rs", "src/yuv_p16_rgba_p16.rs", "src/ar30_rgb.rs", "src/geometry.rs", "src/sse/", "src/avx2/", "src/avx512bw/"],
     [("fixed-point coefficients per matrix, range, depth and mode", "src/yuv_support.rs, src/built_coefficients.rs"), ("const generic channel orders, sampling, endianness and bit alignment", "every conversion"), ("saturating packs and clamps", "row functions")],
     ["destination samples decoded from planes, and returned status, on every machine"],
     claimed="refinement against a small executable reference model of every function: a simulated fleet of machines with different CPU models works on seeded frames and bands, dies at seeded steps and hands over; every sample that comes back is compared with the model's")

prop("C12", "A build with arithmetic and safety checks behaves the same",
     "Built with overflow checks and debug assertions (a debug build; the assertions include the standard library's checks of what unsafe code must guarantee, such as the bounds of get_unchecked) every conversion returns the same status and the same bytes as the build without them, on every x86-64 CPU model, for every image whose samples fit their bit depth, every parameter and every size, and for every image that is refused; it never panics and never aborts.",
     ["configurations", "inputs", "histories", "fault_sequences"],
     "both builds; every function, sample value within its depth, size, padding, parameter set, CPU model and refused geometry; sessions of calls by one or more interleaved callers",
     "The tests are run in one profile, on a few constant colours and sizes; an intermediate value that leaves its type only for particular samples and coefficients, or an unchecked index one past the end, goes unnoticed in release builds and kills debug builds.",
     ALL + ["src/yuv_support.rs", "src/numerics.rs", "src/yuv_error.rs", "src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/sse/", "src/avx2/", "src/avx512bw/"],
     [("intermediate values fit their types", "fixed-point row functions, coefficient and size computations"), ("unchecked accesses stay inside their slices", "get_unchecked in row functions and SIMD bodies")],
     ["returned status, panics and aborts, destination planes of both builds"],
     claimed="sessions of interleaved callers with injected geometry faults run in the checked build under the simulator; status and bytes are compared with the unchecked build's in a process of its own")

prop("C13", "Images the library allocates are as good as the caller's",
     "For every size, sample type and chroma subsampling `alloc` gives a blank image (every sample zero) whose planes have exactly the rows and samples of that size at its strides and which check_constraints accepts; `to_fixed` and `from_mut` give views of exactly that image. A conversion into such an image, or from a view of it, returns the same status and the same samples as over the caller's own buffers, keeps no memory once the image is dropped, and when the allocation is refused the process ends in the allocation-failure abort without having touched anything else. check_constraints accepts every well-formed image, of either kind, and refuses every image one of whose planes is too short for its rows or whose stride is shorter than a row.",
     ["inputs", "histories", "fault_sequences", "schedules"],
     "every conversion with a YUV image on either side, every size including odd and one-sample ones, dirty heaps, interleaved callers, refused allocations, malformed planes",
     "Tests allocate a few even-sized images on a fresh heap, where wrong chroma sizes cancel out, uninitialised memory reads as zero and no allocation fails; no test asks check_constraints about a bad image.",
     ["src/images.rs", "src/yuv_error.rs", "src/yuv_support.rs"],
     [("sizes of planes per subsampling", "alloc of YuvPlanarImageMut, YuvBiPlanarImageMut and YuvGrayImageMut in src/images.rs"), ("views", "to_fixed, from_mut, BufferStoreMut"), ("check_constraints and the check_* helpers", "src/images.rs, src/yuv_error.rs")],
     ["plane lengths, strides and content of allocated images; status and samples of conversions; allocator seam"],
     claimed="sessions of interleaved callers whose images come from the library's allocator on a dirty simulated heap, with malformed planes and refused allocations; compared with the same calls over plain buffers in pristine processes")

prop("C14", "Leaving features out of the build never changes an image",
     "The cargo features for back ends and modes (avx, sse, nightly_avx512, fast_mode, professional_mode; the others add functions and change none) choose speed and which modes can be named, nothing else. For every function and every input a build with the default features returns the same status and, in Balanced mode, the same image to the last bit as the build with all features does on a CPU that lacks the instructions left out (AVX-512 and AVX-VNNI); a build without back ends does what the full build does on a CPU with no vector extensions, whatever CPU it runs on. So machines with different builds may share a stream, or the bands of a frame, and take over from one another after a crash, without a trace.",
     ["inputs", "schedules", "crash_points", "fault_sequences"],
     "every function, every parameter and geometry; builds with all features, the default features and no back ends on CPUs that leave them the same back ends; crash and hand-over at any instruction",
     "Each test build is run on its own against tolerances; nothing compares two builds, the build without back ends is never run, and the code that only exists when a feature is off is hidden from the tests of the full build.",
     ["Cargo.toml", "src/avx2", "src/sse", "src/avx512bw", "src/yuv_support.rs"],
     [("feature gates", "cfg(feature = ...) in the row handlers of rgba_to_yuv.rs, rgba_to_nv.rs, yuv_to_rgba.rs, yuv_nv_to_rgba.rs and others"), ("code for builds without AVX-512", "cfg(not(feature = \"nightly_avx512\")) in src/avx2/avx2_utils.rs"), ("runtime detection", "is_x86_feature_detected! in the handlers")],
     ["status and samples of every call; CPU model and build of every machine"],
     claimed="frames and bands shared by simulated machines that run three builds of the library on CPUs leaving them the same back ends, with crashes and hand-over; compared bit for bit with the full build on one undisturbed machine")

with open(f"{R}/properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("claimed", "na")}) + "\n")
m = dict(version=1, setup_cmd="./check.sh build",
         checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                      technique="deterministic simulation with fault injection: " + p["claimed"], level="exploration",
                      level_note="Seeded search over schedules, faults and inputs on the real code; every run is repeatable from its seed and a violation comes as a minimised replay file. It shows the presence of violations, not their absence beyond the runs made. Trusted: the simulator in /verif/simctl and the compiler's edge instrumentation.")
                 for p in sorted(P, key=lambda p: p["id"]) if p["claimed"]],
         not_applicable=[dict(property=p["id"], reason=p["na"]) for p in sorted(P, key=lambda p: p["id"]) if p["na"]],
         notes="No hooks in /repo: the seams are a compiler wrapper (edge instrumentation), symbol interposition (threads, futexes, clocks, randomness), a global allocator and std's CPU feature cache in the harness crate. Replay: ./check.sh replay <file>.")
json.dump(m, open(f"{R}/MANIFEST.json", "w"), indent=1)
open(f"{R}/MANIFEST.json", "a").write("\n")
