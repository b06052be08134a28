"""Source of /verif/properties.jsonl and /verif/MANIFEST.json: python3 harness/props.py rewrites both."""
import glob
import importlib.util
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if hook:
        a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


SMALL = "The tests run a handful of fixed arrays, nearly all shorter than the threading threshold"

prop("C01", "Parallel work is done exactly once and is finished when the call returns",
     "Work handed to the thread pool is executed block by block, every block exactly once and covering exactly the requested "
     "elements, whatever the number of workers, their wake-ups and their scheduling. When the submitting call returns, all blocks "
     "are complete, no worker touches that work afterwards, and the pool takes the next work without loss or deadlock. An "
     "interrupted or failing work still ends, reports that it did not complete, and leaves the pool usable. Participants working at the same time have "
     "different core numbers below the number of participants, and bins shared out among participants cover all bins once.",
     ["schedules", "histories", "configurations"],
     "every interleaving of submitter and workers, every number of workers, every history of submissions, interrupts and thread settings",
     "The unit tests run one schedule per execution on an idle pool; a lost or doubled block needs a worker that stalls at one particular point.",
     ["src/MathWorker.h", "src/MathWorker.cpp", "src/MathThreads.cpp", "src/MathThreads.h", "src/interrupt.cpp", "src/interrupt.h"],
     [("work ring, block counters, futex wake-ups", "src/MathWorker.h, src/MathThreads.cpp")],
     [("ring index, completed index", "which slot is open", "stWorkerRing"), ("block next / completed counters", "progress of a slot", "stMATH_WORKER_ITEM")],
     "yield points at the ring's atomic steps")
prop("C02", "Results do not depend on threading, wake-up policy, recycling or memory layout",
     "A computation's result depends on its argument values only: switching threads off or on, changing how many workers are woken, "
     "switching array recycling or garbage limits, repeating the call, calling from several Python threads at once, or passing the same values through another memory layout or "
     "start alignment yields the same result. No call changes its inputs unless it is documented to do so.",
     ["configurations", "schedules", "histories"],
     "every sequence of thread/recycler settings and calls, every layout and alignment of the same values, every schedule",
     "Tests run one configuration and one layout; vector tails, block boundaries and stale recycled memory show only in others.",
     ["src/BasicMath.cpp", "src/UnaryOps.cpp", "src/Compare.cpp", "src/Reduce.cpp", "src/MathWorker.h", "src/Recycler.cpp", "src/GroupBy.cpp", "src/Array.cpp"],
     [("per-block kernels and strided/contiguous paths", "src/BasicMath.cpp"), ("thread switches", "src/RipTide.cpp")])
prop("C03", "Recycled array memory is never shared with a live array",
     "Memory of a dead array may be handed out again only after no array, view or buffer can reach it, only once, and only for an "
     "array of the same type and at most its size. Arrays that are views, read-only, shared or not eligible are never recycled; "
     "switching recycling off, emptying or ageing the cache frees what it holds exactly once.",
     ["histories", "configurations"],
     "every history of array creation, views, deletion, reuse, cache settings and ageing",
     "A wrongly recycled buffer shows only when a specific later allocation has the same size and the earlier view is still alive.",
     ["src/Recycler.cpp", "src/Recycler.h", "src/RipTide.cpp", "src/Array.cpp"],
     [("recycle buckets with entries per size class", "src/Recycler.cpp"), ("finalizer of array subclass", "src/Recycler.cpp")],
     [("recycle table", "dead arrays kept per size", "src/Recycler.cpp"), ("garbage clock", "age of an entry", "src/Recycler.cpp")])
prop("C04", "SDS files return the data that was saved",
     "Loading a saved file returns the same item names and order, flags, types, shapes, array bytes and metadata that were written, "
     "for every supported type, dimension, memory order, compression setting and thread setting. Overwriting a file leaves only "
     "the new content, and reading file information reports the same items.",
     ["inputs", "configurations", "histories"],
     "every item list, array shape and type, compression mode and level, thread setting, and save/load history",
     "Tests save a few fixed arrays; sizes at band and block boundaries, empty items and incompressible data are not sampled.",
     ["src/SDSFile.cpp", "src/SDSFile.h", "src/SDSFilePython.cpp", "src/Compress.cpp", "src/ZstdCompress.cpp", "src/FileReadWrite.h"],
     [("header, name, meta and array blocks with offsets", "src/SDSFile.h, src/SDSFile.cpp")],
     [("file header and array block table", "offset, sizes, type and shape of every item", "src/SDSFile.h")])
prop("C05", "Appended SDS sections and selective reads return exactly what was asked for",
     "A file built by appending named sections contains every section's rows in the order appended, and a read of named items or "
     "through a row filter returns exactly the corresponding rows and items. Items missing from a section are filled with "
     "the type's invalid value, never with another item's data. Reading several files of which some are missing gives each present file's contents "
     "in its place, unless all must exist.",
     ["histories", "inputs", "configurations"],
     "every history of section appends and every selection of items and filters",
     "Tests use one or two sections with the same items; offsets go wrong for later sections or for absent or filtered items.",
     ["src/SDSFile.cpp", "src/SDSFile.h", "src/SDSFilePython.cpp"],
     [("section table and offsets", "src/SDSFile.cpp")], [("section names and offsets", "where each section starts", "src/SDSFile.cpp")])
prop("C06", "Stacking several SDS files equals concatenating their contents",
     "Reading many files as one returns, for every item found, the rows of each file in file order with a partition offset per file, "
     "filling rows of files that lack an item with the invalid value and widening types so every value is kept. A missing file "
     "or one without any of the requested items contributes no rows and does not shift the others'; asking only for missing files is an error.",
     ["inputs", "configurations", "fault_sequences"],
     "every list of files with differing items, types, lengths and missing files, and every thread setting",
     "Tests stack uniform files; mixed types, absent items and strings of different widths take different copy paths.",
     ["src/SDSFile.cpp", "src/SDSFilePython.cpp"], [("multi-file master header and stacked copy", "src/SDSFile.cpp")])
prop("C07", "Damaged SDS files are rejected or read without inventing data",
     "Loading a truncated file, one with a damaged compressed payload, or one that is no SDS file at all reports an error or leaves the damaged item out; it "
     "never crashes, hangs, or returns an item whose bytes differ from those saved as if it were intact.",
     ["crash_points", "fault_sequences"],
     "every truncation point and every single damaged byte of a compressed payload or of the magic numbers",
     "Tests only read files that were written completely.",
     ["src/SDSFile.cpp", "src/SDSFilePython.cpp", "src/FileReadWrite.h", "src/Compress.cpp"],
     [("magic numbers, size checks, read return codes, codec checksums", "src/SDSFile.cpp")])
prop("C08", "Grouping assigns rows to the same group exactly when their keys are equal",
     "For any number of key columns of any supported types, grouping gives two rows the same group exactly when all their keys are equal; "
     "groups are numbered from one in order of first appearance and the first-row index of every group is that of its first member. "
     "Rows excluded by a filter belong to no group, and a rolling or hinted grouping gives the same partition.",
     ["inputs", "configurations"],
     "every set of key columns (types, widths, strides), filter, hash mode, hint size and length",
     SMALL + "; hash collisions, table growth, tiny key types and multi-key packing are not sampled.",
     ["src/HashLinear.cpp", "src/HashLinear.h", "src/MultiKey.cpp", "src/MultiKey.h", "src/HashFunctions.cpp"],
     [("linear-probing hash with resize", "src/HashLinear.cpp"), ("key packing", "src/MultiKey.cpp")],
     [("hash table", "slot -> first row", "src/HashLinear.cpp")])
prop("C09", "Membership finds the first equal row of the other table, or none",
     "Testing a table's rows for membership in another table, on one or several key columns, marks a row found exactly when an equal "
     "row exists in the other table and gives the index of its first occurrence, and the invalid index otherwise. "
     "NaN keys match nothing in single-column floating point membership.",
     ["inputs", "configurations", "schedules"],
     "every pair of tables, key types and widths, hash mode, hint and thread schedule",
     SMALL + "; string widths, table load, and small-type shortcuts each have their own code path.",
     ["src/HashLinear.cpp", "src/HashFunctions.cpp", "src/is_member_tg.cpp", "src/MultiKey.cpp"],
     [("lookup hash over the second table", "src/HashLinear.cpp")])
prop("C10", "Time alignment and merging of sorted tables pick the right neighbour",
     "An as-of alignment gives for every left row the last earlier-or-equal (backward) or first later-or-equal (forward) right row "
     "with the same key, excluding equal times when asked, and the invalid index when none exists; rows with an invalid time take no part. "
     "The fast merge of two tables that are already binned gives the same backward match for every bin, bin type and value type.",
     ["inputs"], "every pair of key columns and sorted time columns with ties and invalid values",
     "Ties, gaps and rows before the first or after the last match combine in more ways than the tests list.",
     ["src/Merge.cpp", "src/HashLinear.cpp", "src/MultiKey.cpp"],
     [("per-key cursor over sorted times", "src/HashLinear.cpp, src/Merge.cpp")])
prop("C11", "Group aggregations over unsorted groups equal the per-group definition",
     "Summing, averaging, minimum, maximum, first, last, count, variance-like and any/all aggregations over groups give for every group "
     "the definition applied to exactly that group's rows; invalid values are included only in the versions that do not skip them, and "
     "a group with no valid rows gives the type's invalid value (or zero for sums and counts). Rows in the excluded group do not affect others.",
     ["inputs", "configurations", "schedules"],
     "every value column and type, assignment of rows to groups, group range and thread schedule",
     SMALL + "; multi-threaded partial results and all-invalid groups are not sampled.",
     ["src/GroupBy.cpp", "src/GroupBy.h"], [("accumulate kernels per type, with threaded merge of partial results", "src/GroupBy.cpp")],
     [("per-group accumulators and counts", "running aggregate", "src/GroupBy.cpp")])
prop("C12", "Group aggregations that need ordered groups equal the per-group definition",
     "Median, quantile, nth, mode, first/last, shift, difference, rolling and trimmed-mean functions over groups return for each group "
     "(or row) the definition applied to that group's rows in row order, with invalid values where a group has too few rows.",
     ["inputs", "configurations", "schedules"],
     "every value column and type, group layout, window/shift/nth/quantile parameter and thread schedule",
     SMALL + "; groups shorter than the window and invalid values inside a window are not sampled.",
     ["src/GroupBy.cpp", "src/GroupBy.h", "src/Heap.h"], [("packed group index: group order, first and count per group", "src/GroupBy.cpp")])
prop("C13", "Cumulative and decaying functions per group follow their recurrences",
     "Cumulative sum, product, min, max and count-within-group, next/previous row lookup and exponentially decayed averages over groups give "
     "for each row the recurrence over the earlier accepted rows of its group in row order; rows removed by a filter or reset leave the state "
     "exactly as specified, and groups never influence each other.",
     ["inputs", "histories"], "every value, time, filter and reset column and group assignment",
     SMALL + " with no filter or reset combination.",
     ["src/Ema.cpp", "src/Ema.h"], [("per-group running state", "src/Ema.cpp")], [("last value/time per group", "recurrence state", "src/Ema.cpp")])
prop("C14", "Packing by group is a stable permutation with exact counts and offsets",
     "Counting and packing rows by group yields counts that sum to the number of rows, offsets that are their running sum, and an order that "
     "lists every row exactly once, groups ascending and original order within a group. Groups recovered from a sort order or from counts describe the same partition.",
     ["inputs", "configurations", "schedules"], "every assignment of rows to groups, integer width, filter, and thread schedule",
     SMALL + "; the threaded counting path needs tens of thousands of rows.",
     ["src/Bins.cpp", "src/GroupBy.cpp", "src/Sort.cpp", "src/HashFunctions.cpp"], [("bin counting and next-chains", "src/Bins.cpp, src/GroupBy.cpp")])
prop("C15", "Sorting is an ordered, stable permutation with invalids last",
     "Sorting values or computing a sort order returns a permutation of the rows in non-decreasing order under the type's ordering with NaN last; "
     "index sorts keep equal rows in their original order, a lexicographic sort orders by all keys, and a filter restricts the sort to the selected rows. Sortedness tests agree with that order.",
     ["inputs", "configurations", "schedules"], "every array, type, length, key list, cutoff partition, filter and thread schedule",
     SMALL + "; the parallel merge path and partitioned sorts have boundaries they never touch.",
     ["src/Sort.cpp", "src/Sort.h"], [("merge sort with parallel merge, per-type comparisons", "src/Sort.cpp")])
prop("C16", "Indexing reads return the addressed rows, or the fill value out of range",
     "Taking rows by integer index returns the indexed value for every in-range (including negative) index and the fill or invalid value otherwise; "
     "boolean selection returns exactly the rows marked true, in order; counts and positions of true rows agree with each other, and reordering by a permutation and its inverse cancel out.",
     ["inputs", "configurations", "schedules"], "every array and item size, index type and value, mask, layout and length",
     SMALL + "; each item size, index type and unroll tail has its own loop.",
     ["src/Merge.cpp", "src/Bins.cpp", "src/RipTide.cpp"],
     [("gather kernels", "src/Merge.cpp, src/Bins.cpp")])
prop("C17", "Masked writes change exactly the addressed elements",
     "A masked or indexed assignment writes the given value to exactly the selected elements and leaves all others untouched; a conditional "
     "select takes each element from the branch its condition names. Values are converted to the destination type, scalars and arrays alike.",
     ["inputs", "configurations", "schedules"], "every array and item size, mask, value shape and type, length and layout",
     SMALL + "; mask tails, mask bytes at word boundaries and threading differ by length.",
     ["src/Convert.cpp", "src/BasicMath.cpp"], [("mask kernels", "src/Convert.cpp")])
prop("C18", "Combining group keys and filters keeps the partition",
     "Applying a filter to a group key moves exactly the filtered-out rows to the excluded group; combining several group keys gives rows the same "
     "combined group exactly when all parts agree, dropping empty combinations and numbering by first appearance. First and last rows per group match the definition, and membership through matched labels finds the first row with the same label.",
     ["inputs", "configurations"], "every combination of group keys, integer widths, filters and lengths",
     SMALL + "; unused groups, excluded rows and key widths combine.",
     ["src/Bins.cpp", "src/Convert.cpp", "src/HashFunctions.cpp", "src/GroupBy.cpp"], [("combine kernels", "src/Bins.cpp, src/Convert.cpp")])
prop("C19", "Conversions, stacking and shifting preserve values and invalids",
     "Converting between types keeps each value the target can represent and maps the source's invalid to the target's invalid (and only it); stacking arrays "
     "keeps all rows in order under the common type, which holds every source type (64-bit integers of mixed sign meet in float64); shifting moves rows and leaves the vacated rows as they were.",
     ["inputs", "configurations", "schedules"], "every pair of types, value, list of arrays, shift and length",
     SMALL + "; 100+ type pairs have separate kernels, safe and unsafe.",
     ["src/Convert.cpp", "src/Convert.h", "src/TypeSystem.cpp", "src/missing_values.h", "src/Array.cpp"], [("conversion kernels", "src/Convert.cpp")])
prop("C20", "Binary arithmetic and comparisons are elementwise",
     "Arithmetic, comparison, bitwise, min/max and division operators produce at every position the operator applied to the operands at that position in their "
     "common type, with scalars repeated. Integer arithmetic wraps, an integer invalid becomes invalid (or NaN) when its operand is converted to a wider type, "
     "comparisons with NaN are false and not-equal true, integers of different signedness compare by value. The result is the same for every length, layout "
     "and output array.",
     ["inputs", "configurations"], "every operator, type pair, scalar/array form, length, stride and output array",
     SMALL + "; every operator and type has separate vector bodies and tails.",
     ["src/BasicMath.cpp", "src/Compare.cpp", "src/basic_ops.h", "src/TypeSystem.cpp"], [("operator kernels", "src/BasicMath.cpp, src/Compare.cpp")])
prop("C21", "Unary operations are elementwise and classify invalids exactly",
     "Absolute value, negation, sign, rounding, square root, logical not and the is/is-not NaN, finite, infinite, and normal tests "
     "give at every position the mathematical result for that element, treating integer invalids as NaN where documented; results do not depend on length or layout.",
     ["inputs", "configurations"], "every operation, type, value class, length and stride",
     SMALL + "; vector bodies and tails differ per type.",
     ["src/UnaryOps.cpp", "src/one_input.cpp", "src/one_input_impl.h", "src/operations.h"], [("operation kernels", "src/UnaryOps.cpp, src/one_input.cpp")])
prop("C22", "Whole-array reductions equal their definition over all valid elements",
     "Sum, mean, min, max, argmin, argmax, variance, standard deviation and any/all over an array equal the definition over all elements, the NaN-skipping versions the definition "
     "over the valid ones; ties give the first position and an array with no valid element gives invalid.",
     ["inputs", "configurations", "schedules"], "every reduction, type, length, position of invalids and extrema, stride and thread schedule",
     SMALL + "; block-wise partial results must be merged in order.",
     ["src/Reduce.cpp", "src/Reduce.h"], [("per-block partial reductions merged at the end", "src/Reduce.cpp")])
prop("C23", "Cutting values into bins puts each value in the one bin that contains it",
     "Binning by edges puts a value in the bin whose lower and upper edge enclose it, respecting the open or closed side, with out-of-range and invalid values in the "
     "invalid bin; searching left or right edges counts the edges below (or not above) the value. This holds for every edge list and type pair, including values equal to an edge.",
     ["inputs", "configurations"], "every value, edge list, type pair, side and length",
     SMALL + "; ties with edges at every bisection depth are not sampled.",
     ["src/Bins.cpp", "src/Bins.h"], [("binary edge search", "src/Bins.cpp")])
prop("C24", "Rolling and time-window functions equal the definition over each window",
     "Rolling sum, mean, variance, standard deviation and quantile over a row window, and sum and product over a time window, give at each row the definition "
     "over exactly the rows of its window (variance divides by the count of values). The skipping variants leave out invalid values, which leave no residue once they left the window.",
     ["inputs", "histories"], "every series, window, time column and position of invalids",
     SMALL + "; residue shows only after an invalid leaves the window.",
     ["src/TimeWindow.cpp", "src/Ema.cpp"], [("incremental window state", "src/TimeWindow.cpp, src/Ema.cpp")])
prop("C25", "Date and time text is parsed to the right instant, or to invalid",
     "A well-formed date, time or timestamp text gives exactly its instant, including leap years and fractions of a second, and never warns; out-of-range text gives the invalid value "
     "(a timestamp with a valid date and an out-of-range time gives the start of that day), and malformed text gives the invalid value or is reported by a warning. "
     "Parsing depends on nothing but the text of that element.",
     ["inputs"], "every text up to the accepted length, including malformed and truncated",
     "Tests list a few well-formed dates.",
     ["src/DateTime.cpp", "src/strptime5.cpp"], [("fixed-format parsers", "src/DateTime.cpp")])
prop("C26", "Logging delivers every accepted message in order and honours enable/disable",
     "Messages logged while logging is enabled reach Python's logger of that name in order and at most once, each with the time it was logged; none is delivered after "
     "logging is disabled without a time limit. Below the queue's limit, disabling without a time limit or leaving the process delivers all of them; a full queue drops messages but not their order. "
     "Enabling and disabling, repeatedly, from several threads or while others log, returns without waiting for the flush interval and never deadlocks, crashes or keeps "
     "logging from being enabled again. An interval or batch size below one is refused.",
     ["histories", "schedules"], "every history of enable, disable, log bursts and exits, every interleaving of logging, delivering and controlling threads",
     "Tests enable once and log a few messages.",
     ["src/Logger.cpp", "src/logging"], [("queue with background thread", "src/logging")])
prop("C27", "Data put in shared memory reads back the same until it is replaced",
     "Saving to a shared memory name and loading it, by the same or another process, returns the same items and bytes (read-only); saving again replaces the contents, and "
     "arrays already loaded stay readable as they were. Loading a file under a name nothing is shared under puts the file's contents there. A load only ever sees one whole "
     "version, also when the saver is interrupted or killed; a save that is refused or fails raises and leaves nothing partial. Once the arrays are dropped nothing stays "
     "mapped or open. Threads working on different files do not affect each other.",
     ["histories", "crash points", "schedules"], "every history of shared-memory saves, loads, replacements, kills and refusals, and every moment a saver may be killed or a load may run",
     "No test loads what another process saves, replaces what is loaded, or stops a saver.",
     ["src/SharedMemory.cpp", "src/SDSFile.cpp"], [("shared memory mapping of the file layout", "src/SharedMemory.cpp")])
prop("C28", "Compression round-trips and checksums detect damage",
     "Compressing and decompressing any buffer at any level returns the same bytes; decompressing damaged or truncated data gives an error, never "
     "different bytes presented as good, and the checksum of a buffer depends on all of its bytes and is the same for every alignment.",
     ["inputs", "fault_sequences"], "every buffer, level, damage and alignment",
     "No test decompresses damaged data.",
     ["src/Compress.cpp", "src/ZstdCompress.cpp", "src/CRC32.cpp"], [("zstd frame with checksum, CRC kernels", "src/Compress.cpp, src/CRC32.cpp")])
prop("C29", "Bit counts, trimming, interpolation and row transposition match definitions",
     "Counting bits, trimming trailing spaces, interpolating on a table and turning rows of records into columns give for every element "
     "the definition's result, and never touch bytes outside the element.",
     ["inputs", "configurations"], "every input, element width, length and thread schedule",
     SMALL + ".",
     ["src/BitCount.cpp", "src/TileRepeat.cpp", "src/RipTide.cpp", "src/Array.cpp", "src/Convert.cpp"], [("kernels", "src/BitCount.cpp")])

prop("C30", "Arrays made from lists, scalars and arrays hold exactly the given items",
     "Turning a list, tuple, scalar or array into an array keeps every item's value and place: integers of any size never become another number, text and bytes are "
     "kept whole, a scalar becomes one element of its own type (dates with their unit), an array is returned itself unless a copy or another type or order is asked for, "
     "a copy shares no memory; wrong arguments raise ordinary exceptions, and no object's reference count is left changed.",
     ["inputs", "configurations"], "every list, tuple, scalar and array, of one kind of item or several, with or without the fast array class registered",
     SMALL + ".",
     ["src/Array.cpp", "src/RipTide.cpp", "src/Convert.cpp"], [("conversion", "src/Array.cpp")])
prop("C31", "Operators on the fast array class give the elementwise answers, in place too",
     "With the operators of the array class taken over, every arithmetic, comparison, bit, shift, power and unary operator, written with arrays or scalars on either side, "
     "gives elementwise exactly what its definition says in the right type and class; in-place forms change only the left array and keep its type; other operands and "
     "reference counts are unchanged; what the library leaves to numpy gives the same answer.",
     ["inputs", "configurations"], "every operator, operand form, type, layout, length and thread schedule",
     SMALL + ".",
     ["src/Hook.cpp", "src/BasicMath.cpp", "src/UnaryOps.cpp", "src/Compare.cpp"], [("operators", "src/Hook.cpp"), ("kernels", "src/BasicMath.cpp")])

NOT_YET = "no check yet"
NA = {}


def main():
    with open(ROOT + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    sys.path.insert(0, ROOT + "/checks")
    sys.path.insert(0, ROOT + "/harness")
    checks, have = [], set()
    for c in sorted(glob.glob(ROOT + "/checks/c[0-9]*_*.py")):
        spec = importlib.util.spec_from_file_location("c", c)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        have.add(m.PID)
        cmd = "bash bin/check %s" % m.PID
        checks.append({"property": m.PID, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                       "technique": m.TECHNIQUE, "level": "model_checking", "level_note": m.LEVEL_NOTE})
    man = {"version": 1, "setup_cmd": "bash bin/setup.sh"}
    if HOOKS:
        man["hooks"] = HOOKS
    man["checks"] = checks
    man["not_applicable"] = [{"property": p["id"], "reason": NA.get(p["id"], NOT_YET)} for p in P if p["id"] not in have]
    man["notes"] = "TLA+ specifications checked by TLC; every check drives the real code built from /repo and has TLC validate the recorded steps. See DESIGN.md."
    with open(ROOT + "/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


HOOKS = None

if __name__ == "__main__":
    main()
