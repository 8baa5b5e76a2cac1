#!/usr/bin/env python3
"""Source of properties.jsonl (run me to regenerate it)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


JQ = ["sm_boost/src/JobQueue.cpp", "sm_boost/include/sm/boost/JobQueue.hpp", "sm_boost/include/sm/boost/implementation/JobQueue.hpp"]
p("J01", "Job queue: shared state only under its lock, jobs run unlocked",
  "At every moment, in every thread, the job queue's list of pending jobs, its stop flag and its counters of workers and running jobs are read or written only while the queue's own lock is held. A submitted job is always called with that lock released, and the lock is never acquired twice by one thread or released while it is not held.",
  ["schedules", "programs"], "all interleavings of any number of threads calling the queue's operations and of its workers",
  "A race needs one particular interleaving; the only job-queue test runs one schedule of a few futures.",
  JQ, [("worker loop", "JobQueue::exec_loop"), ("submission", "JobQueue::scheduleWork"), ("stop/join", "JobQueue::stop, JobQueue::join"), ("destructor", "JobQueue::~JobQueue")])
p("J02", "Job queue: no wake-up is ever lost",
  "A thread that sleeps in the job queue (a worker waiting for work, a caller waiting until the queue has drained, a destructor waiting for the workers) tests its condition again after every wake-up. Every change that can make such a condition true is made under the lock the sleeper tested it under and is followed, on every path, by waking all threads that sleep on it.",
  ["schedules", "histories"], "all interleavings of submitting, running, draining, stopping, joining and destroying",
  "A lost wake-up shows only as a hang in a rare schedule; no test stops or joins an idle pool.",
  JQ, [("waits", "JobQueue::exec_loop, waitForEmptyQueue, ~JobQueue"), ("notifications", "scheduleWork, stop, join, exec_loop")])
p("J03", "Job queue: workers and running jobs are accounted for on every exit",
  "A worker is counted as living before its thread starts, is given back exactly once when it ends (or when it could not be started), and does not touch the queue once it has been given back and the lock released; the destructor returns only after every counted worker was given back. A job counts as running from the moment it leaves the list, in the same lock hold, until it has returned, so that waiting for an empty queue returns only when no job is waiting or running. A new queue starts without workers, running jobs or a request to stop.",
  ["schedules", "fault_sequences", "programs"], "all jobs and all moments at which the queue is stopped, drained or destroyed, including a thread that cannot be started",
  "No test destroys a queue whose workers have only just been started, or drains it while one job is between the list and its call.",
  JQ, [("worker loop", "JobQueue::exec_loop"), ("thread start", "JobQueue::start"), ("destructor", "JobQueue::~JobQueue")])
p("J04", "Job queue: each submitted job is taken exactly once, oldest first",
  "A submission appends exactly the submitted job at the end of the list of pending jobs, and jobs leave that list in no other way than a worker taking the oldest one, in a single hold of the lock and knowing that there is one. A worker calls each job it took exactly once before it takes the next, and calls nothing else. The job a future's submission appends runs, once, the very task that future was obtained from.",
  ["schedules", "histories"], "all interleavings of submissions and workers",
  "The test submits a few equal jobs and cannot tell a reordered, dropped or repeated one under another schedule.",
  JQ, [("submission", "JobQueue::scheduleWork, scheduleFuture"), ("worker loop", "JobQueue::exec_loop")])

LG = ["sm_logging/src/LoggingGlobals.cpp", "sm_logging/include/sm/logging/LoggingGlobals.hpp"]
p("L01", "Logging: locks are taken in one global order and never twice",
  "The locks inside the logging system are acquired in an order that has no cycle, whatever mix of logging, level changes and stream switches the threads of a program perform. A non-recursive lock is never requested by a thread that already holds it.",
  ["schedules", "programs"], "all interleavings of all public logging operations",
  "A deadlock needs two threads in two particular windows; the logging test is single-threaded.",
  LG + ["sm_logging/src/StdOutLogger.cpp"],
  [("stream switches", "LoggingGlobals::enableNamedStream/disableNamedStream"), ("call-site registry", "initializeLogLocation, notifyLoggerLevelsChanged, checkLogLocationEnabled")])
p("L02", "Logging: registry and stream tables are only touched under their locks",
  "The table of registered log sites is read or changed only while the registry lock is held, and the set of enabled named streams only while the stream lock is held; every lock taken is released on every way out.",
  ["schedules", "programs"], "all threads and interleavings of the public logging operations",
  "A data race is invisible to single-threaded tests.",
  LG, [("registry", "_locations under _locations_mutex"), ("streams", "_named_streams under _named_stream_mutex")])
p("L03", "Logging: a log statement prints exactly when it should, and only what it says",
  "On each execution a log statement prints, once, exactly if it is enabled at that time and its condition holds (COND), it has not printed before (ONCE), or its period has passed since it last printed (THROTTLE), with the severity, stream name, place and text of that statement; its arguments are evaluated exactly when it prints, its condition and period only if it is enabled, and whatever expressions and names the caller uses for them. A statement below the compile-time minimum severity evaluates nothing, and one at or above it is complete. The logging assertions act exactly when their whole condition is false, evaluating it once.",
  ["inputs", "configurations", "programs"], "all severities, statement variants, runtime levels and compile-time thresholds, over successive executions by one thread",
  "There are 11 severities times 16 statement variants times 12 thresholds; the test uses a handful at one threshold.",
  ["sm_logging/include/sm/logging/Levels.hpp", "sm_logging/include/sm/logging/console.hpp", "sm_logging/include/sm/logging/assert.h", "sm_logging/include/sm/logging/macros_generated.hpp"],
  [("macros", "SM_LOG_* and SM_<LEVEL>* macros, SM_ASSERT*")])
p("L04", "Logging: severities and format tokens mean the same in every table",
  "The severities are ordered and numbered alike at run time and at compile time, the name of each is read as that severity in any letter case while any other text is read as Info, and the severity token prints the first five letters of the event's own severity name. Every documented format token (severity, message, time, thread, file, line, function, streamname) prints that item of the event, and any other token prints what the formatter's table holds for it, or itself. The formatter writes its list of tokens in order, between a colour and its reset if colours are on, and ends the line.",
  ["inputs", "configurations"], "all severities and all format tokens",
  "The tests print a few severities with the default format only.",
  ["sm_logging/src/Levels.cpp", "sm_logging/include/sm/logging/Levels.hpp", "sm_logging/src/Tokens.cpp", "sm_logging/src/Formatter.cpp"],
  [("names", "levels::fromString"), ("tokens", "createTokenFromType, SeverityToken")])
p("L06", "Logging: which statements are enabled, and what reaches the logger",
  "A log statement is enabled exactly if its severity is at least the current level and its stream, if it has one, is enabled; every registered statement is brought up to date by every change of the level or of the enabled streams, and enabling, disabling or asking about a stream concerns exactly the stream of that name, with the package prefix added if it is missing. At start the level is Info and the package's own stream is enabled. A message printed while the system is up and the thread is not already printing reaches the logger once, whole, with the stream name, severity, file, line and function it was printed with.",
  ["inputs", "histories"], "all severities, stream names, sequences of changes and messages of any length",
  "The tests change the level once and print short messages.",
  ["sm_logging/src/LoggingGlobals.cpp", "sm_logging/include/sm/logging/LoggingGlobals.hpp"],
  [("enabled", "checkLogLocationEnabledNoLock, notifyLoggerLevelsChanged, setLevel, enableNamedStream"), ("print", "LoggingGlobals::print, vformatToBuffer")])
p("L05", "Logging: the guard against recursive printing is released on every exit",
  "A thread that prints a log message is marked as printing only while it prints: the mark is cleared on every way out of the print call, including any exception thrown while the message is formatted or written, so that later messages of that thread are not silently dropped. A message arriving while its own thread is marked is not handed to the logger.",
  ["fault_sequences", "programs"], "all messages, formats and exceptions raised by loggers or formatting",
  "No test makes a logger or a format argument throw.",
  LG, [("print", "LoggingGlobals::print (both forms)")])

AM = ["sm_common/include/sm/assert_macros.hpp"]
p("A01", "Assertion macros throw exactly when the asserted relation fails",
  "Each assertion macro throws an exception of exactly the requested type when the relation it is named for does not hold between its arguments (for a proximity assertion: unless the distance is within the tolerance, so NaN fails) and does nothing else when it holds. It treats each argument as a unit, and when the relation holds it has evaluated each operand once (the value tested against a range: once per bound) and the message not at all.",
  ["inputs", "programs"], "all argument values and expressions, including less, equal and greater operands and arguments with low-precedence operators",
  "The tests try each macro on one or two literal pairs and never at the boundary with compound arguments.",
  AM, [("macros", "SM_ASSERT_*, SM_THROW, sm_assert_throw")])
p("A02", "Debug assertions: same check when active, no effect when compiled out",
  "For every debug assertion macro: when debug assertions are active (no NDEBUG, or assertions forced on) it throws exactly when its non-debug namesake does; when they are compiled out, none of its arguments is evaluated and nothing is thrown.",
  ["configurations", "inputs"], "both build modes, forced or not, and all argument values",
  "The stable tests are compiled once per mode with few macros; they cannot compare all namesakes.",
  AM + ["sm_eigen/include/sm/eigen/assert_macros.hpp"], [("macros", "SM_ASSERT_*_DBG")])

p("A03", "Test helpers for matrices accept exactly the matrices that agree",
  "assertEqual, assertNear and expectNear report a failure exactly when the two matrices differ in rows or columns or some entry of one does not equal (is not within the tolerance of) the same entry of the other, NaN never being so, and assertFinite exactly when some entry is not finite. compareRelative, and for every entry ASSERT_DOUBLE_MX_EQ, accepts two numbers exactly if they are equal, both below 1e-15, one zero and the other below 1e-6, or differ by at most the given percentage of the larger magnitude; otherwise the error handed out is that percentage, and NaN, or an infinity and a finite number, are never accepted.",
  ["inputs"], "all matrices of equal or different size, all tolerances, NaN included",
  "Helpers that accept too much make every test written with them pass: no test of the repository shows a helper failing.",
  ["sm_eigen/include/sm/eigen/gtest.hpp"], [("helpers", "sm::eigen::assertEqual, assertNear, expectNear, assertFinite, compareRelative, ASSERT_DOUBLE_MX_EQ")])

p("C01", "Identifier types: comparison, equality and hashing agree",
  "For the 64-bit identifier types and the random hash identifiers, the comparison operators agree with one total order on the identifier's value: equality and inequality are each other's negation, the four orderings agree with the order, assignment and copy preserve the value, and equal identifiers hash equally because the hash depends on nothing but the value. Each half of a random hash identifier is a draw of its own.",
  ["inputs"], "all identifier values",
  "Tests compare a few values; an operator that ignores part of the value passes them.",
  ["sm_common/include/sm/Id.hpp", "sm_common/include/sm/hash_id.hpp", "sm_common/src/hash_id.cpp"],
  [("Id", "sm::Id, SM_DEFINE_ID, SM_DEFINE_ID_HASH"), ("HashId", "sm::HashId")])
p("C02", "Text helpers: replacement, padding, environment variables, lists",
  "sm::replace and sm::replace_reverse end for every text, leave the first `skip` occurrences counted from their own end alone and replace all the others, also when target and replacement are the same character. substituteEnvVars replaces exactly the complete $(NAME) expressions whose variable is set, leading_pad prepends exactly the missing characters, and ensureTrailingBackslash ends any text with one more '/' only if it has none. toStream, paddedToStream, arrToString and s_tuple write every element once, in order, with the separator between elements only; padded, scientific and fixedFloat write the number with the width, fill, notation and precision they are given (scientific: at least precision + 7 wide).",
  ["inputs"], "all strings, including empty ones, occurrences at the very ends, unterminated $( and a replacement equal to the target; lists of every length",
  "There is no test of these helpers; a hang or a wrong end case needs a particular string.",
  ["sm_common/include/sm/string_routines.hpp"], [("helpers", "sm::replace, replace_reverse, substituteEnvVars, leading_pad, ensureTrailingBackslash, toStream, paddedToStream, arrToString, s_tuple, padded, scientific, fixedFloat")])
p("C03", "Hash identifiers: hexadecimal text is decoded completely or refused",
  "Decoding a hash identifier from text succeeds only if the text is exactly one two-digit hexadecimal number per byte and then sets every byte; any other text is refused without changing the identifier and without an exception. Encoding writes every byte as two hexadecimal digits.",
  ["inputs"], "all strings of all lengths",
  "Tests decode well-formed strings and one of the wrong length.",
  ["sm_common/include/sm/hash_id.hpp", "sm_common/src/hash_id.cpp"], [("codec", "HashId::fromHexString, HashId::hexString")])

MA = ["sm_matrix_archive/src/MatrixArchive.cpp", "sm_matrix_archive/include/sm/MatrixArchive.hpp"]
p("C04", "Numeric helpers: rounding, comparison, sign, quadratic roots",
  "sm::round rounds to the nearest integer with halves away from zero, and rint and lrint yield that integer for every value their result type can hold. solveQuadratic yields the two real roots without loss of significance, zero included, and throws when the discriminant is negative; sgn is the sign of its argument. approximatelyEqual, definitelyGreaterThan and definitelyLessThan compare the difference with epsilon times the larger magnitude and refuse an epsilon that is not positive.",
  ["inputs"], "all values except NaN, of both floating types",
  "There is no test of rounding, signs and roots; wrong halves, a double root at zero and large values need particular inputs.",
  ["sm_common/include/sm/round.hpp", "sm_common/include/sm/maths.hpp", "sm_common/include/sm/numerical_comparisons.hpp"], [("helpers", "sm::round, rint, lrint, solveQuadratic, sgn, approximatelyEqual, definitelyGreaterThan, definitelyLessThan")])
p("C05", "Support types: traits, aligned containers, source positions, progress",
  "Each type trait yields exactly the type or truth its name states for values, const values, references and pointers (to const and not), and the aligned containers and shared pointers are the standard ones with Eigen's aligned allocator for the right element, with arguments passed on as they were given. A source position keeps function, file and line apart and prints as file:line: function(). Progress done of all prints 100*done/all percent, completion from 1 on, and throws when all is not positive.",
  ["inputs"], "all types and values",
  "There is no test of these headers; a wrong case needs a particular qualification of the type.",
  ["sm_common/include/sm/typetraits.hpp", "sm_common/include/sm/aligned_allocation.h", "sm_common/include/sm/source_file_pos.hpp", "sm_common/include/sm/progress_info.hpp", "sm_common/src/progress_info.cpp"], [("types", "sm::common::*, Aligned*, aligned_shared"), ("values", "sm::source_file_pos, sm::showProgress")])
p("M01", "Matrix archive: the reader consumes exactly the layout the writer produces",
  "Whatever combination of matrices and strings is stored, the reader consumes the same sequence of fields as the writer emits for the same kind of block: same markers, same widths, same order of row and column counts, same element order, same number of bytes.",
  ["inputs", "histories"], "all archives: any number of blocks of any sizes and names",
  "Tests save and load a few small archives with one implementation of both sides; a symmetric or size-dependent deviation passes.",
  MA, [("writer", "MatrixArchive::writeMatrixBlock, writeStringBlock, writeName"), ("reader", "MatrixArchive::load, readMatrixBlock, readStringBlock")])
p("M02", "Matrix archive: no read or write failure goes unnoticed",
  "Saving reports success only if every byte was accepted by the file, including what is written when it is closed. Loading uses no value that it did not completely read: after each read the stream's state is checked before the value read is used or stored, so a truncated or corrupt file raises an exception instead of yielding garbage.",
  ["fault_sequences", "crash_points", "inputs"], "all truncation points, corrupt contents and write failures",
  "Tests read and write only intact files on a healthy disk.",
  MA, [("reader", "load and its helpers"), ("writer", "save, append and their helpers")])
p("M03", "Matrix archive: a name denotes at most one entry, and only valid names enter",
  "After any sequence of operations a name denotes at most one entry: storing a matrix, vector or scalar under a name removes a string of that name, storing a string removes a matrix of that name, and clearing a name removes both. Every name under which something is stored has passed the archive's name check first.",
  ["histories", "inputs"], "all sequences of set, create, clear and load operations and all names",
  "Tests never store two kinds of entry under one name.",
  MA, [("mutators", "setMatrix, setVector, setScalar, setString, createMatrix, clear, load")])
p("M04", "Matrix archive: what is handed out under a name is exactly what was stored",
  "After storing a matrix, vector, scalar or string under a name, asking for it yields exactly the stored value, whatever stood there before, and every other name keeps its entry; a created matrix has the size asked for and replaces an existing one only on request. Asking for an absent name, for the scalar in an entry that is not 1 by 1, or for the vector in an entry with other than one column raises the archive's exception. References handed out are the entries themselves, and the counts and iterators are those of the entries.",
  ["inputs", "histories"], "all archives, names, values and sizes",
  "Tests store each kind once in a fresh archive; replacing entries of other shapes and asking for the wrong shape are hardly sampled.",
  MA, [("getters", "getMatrix, getVector, getScalar, getString, find, begin, end, getStrings, size"), ("setters", "setMatrix, setVector, setScalar, setString, createMatrix")])

PT = ["sm_property_tree/src/PropertyTree.cpp", "sm_property_tree/src/BoostPropertyTreeImplementation.cpp"]
p("P01", "Property tree: read-only access never changes the tree",
  "Reading a value, testing for a key, listing children and taking a read-only child never modify the tree, even when the key is missing and a default is supplied. The defaulting accessors of a writable handle store the default under the requested key exactly when the tree holds no value there that is readable as the requested type.",
  ["inputs", "histories"], "all trees, keys and defaults",
  "Tests read existing keys; a hidden insertion is seen only by someone who lists or saves the tree afterwards.",
  PT + ["sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp"], [("accessors", "BoostPropertyTreeImplementation::get*, doesKeyExist, getChildren")])
p("P02", "Property tree: typed accessors keep type, key and value intact",
  "Each typed accessor of a property tree handle (get, get with default, set; integer, boolean, floating point, string) performs the operation of the same name and type on the underlying tree, with the key qualified by the handle's own position exactly once, and passes the default or new value through unchanged; it returns exactly what that operation returned. Keys are relative to the handle unless they begin with a slash.",
  ["inputs", "programs"], "all keys, values and handle positions",
  "There are four types times four accessor forms over three layers; tests exercise a few at the root.",
  PT + ["sm_property_tree/include/sm/PropertyTree.hpp"], [("handles", "ConstPropertyTree, PropertyTree"), ("backend", "BoostPropertyTreeImplementation")])
p("P03", "Property tree: an unbound handle raises an error instead of crashing",
  "Every operation of a property tree handle, read-only or writable, that uses its underlying tree first verifies that there is one and raises the library's error if not.",
  ["programs", "histories"], "all operations on default or moved-from handles",
  "Tests never use an unbound handle.",
  ["sm_property_tree/src/PropertyTree.cpp"], [("guards", "ConstPropertyTree and PropertyTree members")])
p("P04", "Property tree: saving and loading dispatch each format to its own codec",
  "For each supported format (XML, INI, INFO, JSON), the format-specific load, save, string-load and string-save operations use that format's parser or writer, and the generic load and save choose the format by the same file-name extension; an unknown extension raises an error.",
  ["inputs", "configurations"], "all formats and file names",
  "Tests cover one or two formats.",
  ["sm_property_tree/src/BoostPropertyTreeImplementation.cpp", "sm_property_tree/include/sm/BoostPropertyTree.hpp"], [("dispatch", "load/save and load<Fmt>/save<Fmt>")])
p("P05", "Property tree loader: child settings override parents, in every combination",
  "When configuration files are loaded with their parents, every parent is merged before the file that names it, parents are merged in the order they are listed, infixed variants are merged after the plain file, and later merges override earlier ones; a missing mandatory file raises an error.",
  ["inputs", "configurations"], "all inheritance graphs, parent lists, search paths and infixes",
  "There is no test of the loader.",
  ["sm_property_tree/src/BoostPropertyTreeLoader.cpp"], [("loader", "UpdateablePropertyTree::loadConfigFileWithParents, BoostPropertyTreeLoader")])

VS = ["sm_value_store/src/ValueStore.cpp", "sm_value_store/src/PrefixedValueStore.cpp", "sm_value_store/src/VerboseValueStore.cpp", "sm_value_store/src/PropertyTreeValueStore.cpp"]
p("V01", "Value stores: every wrapper forwards each operation to its namesake",
  "Each operation of a value store wrapper (reference, prefixing, logging, property-tree adapter in either direction) reaches the same-named, same-typed operation of the wrapped store with the path (prefix-translated where the wrapper translates) and with the default or new value unchanged, and returns what that operation returned.",
  ["inputs", "programs"], "all stores, paths, types, values and defaults",
  "Four types times get/add/default over five wrappers; tests cover a fraction.",
  VS, [("wrappers", "ValueStoreRef, PrefixedValueStore, VerboseValueStoreT, PropertyTreeValueStore, ValueStorePropertyTreeImpl")])
p("V02", "Layered value store: the first layer that has a key wins",
  "A layered store answers from the first layer, in the order the layers were added, that has the key; the caller's default is used only if no layer has it, and a key no layer has and no default is given for is an error. A key is present exactly if it is present in some layer, and a child taken by its key is again layered in the same order.",
  ["inputs", "histories"], "all numbers and contents of layers",
  "Tests layer two stores and query a few keys.",
  ["sm_value_store/src/ValueStore.cpp", "sm_value_store/include/sm/value_store/LayeredValueStore.hpp"], [("layers", "LayeredValueStore::getFromLayers, hasKey, getChild, getChildren, add")])
p("V03", "Definite results: nothing is used or returned that was never computed",
  "No function of the library reads a local variable, an out-parameter result or a member of a freshly constructed object before it has been given a value on every path, and no function that promises a result can end without one.",
  ["inputs", "programs"], "all paths through all functions of the built packages",
  "An uninitialised value often happens to be benign on the paths a test takes.",
  VS + ["sm_boost/include/sm/boost/ptime.hpp"], [("out-parameters", "PrefixedValueStore::applyPrefix and every other out-parameter"), ("returns", "every non-void function")])
p("V04", "Value handles: only the alternatives offered are looked up, in order",
  "A lookup with alternative paths returns the value at the first alternative that exists, calls the alert handler exactly when the alternative taken is one marked as deprecated, never treats a deprecation message as a path, and falls back to the first alternative if none exists; an empty list of alternatives is refused.",
  ["inputs"], "all lists of alternatives with or without deprecation markers, and all stores",
  "Tests use lists in which an earlier alternative exists.",
  ["sm_value_store/src/ValueStore.cpp"], [("alternatives", "ValueStoreRef::findPathAndAlert")])

TM = ["sm_timing/src/Timer.cpp", "sm_timing/include/sm/timing/Timer.hpp"]
p("T01", "Time conversions: one nanosecond scale, inverse pairs, honest validity",
  "Every conversion between nanoseconds, seconds, the system clock and the library's time types scales by exactly the ratio of the units it names, so that paired conversions are inverse up to rounding. A time is reported valid exactly if it differs from the reserved invalid time.",
  ["inputs"], "all time values",
  "Tests convert a few values and never ask about validity.",
  ["sm_timing/src/NsecTimeUtilities.cpp", "sm_timing/include/sm/timing/NsecTimeUtilities.hpp", "sm_boost/include/sm/boost/ptime.hpp"], [("conversions", "nsecToSec, secToNsec, nsecToChrono, chronoToNsec"), ("validity", "isValid, getInvalidTime")])
p("T02", "Timing registry: shared tables only under their lock, handles in bounds",
  "The process-wide tables of timers and tags are read or changed only while the timing lock is held, in every public timing operation. A timer's record is reached only through a handle that was checked against the table or obtained from it.",
  ["schedules", "programs"], "all interleavings of threads creating, running and printing timers",
  "A race on the tables needs two threads; there is no timer test with threads.",
  TM, [("registry", "Timing::m_timers, m_tagMap, m_maxTagLength under m_mutex")])
p("T03", "Clock correction: the estimate is always read from inside the hull",
  "After any sequence of samples, resets and switches, the segment that the clock correction reads its estimate from lies inside the current set of support points: it is the one over the midpoint of the remote times, or the first one while there are only two points. A remote time not later than the last one is refused before anything is changed, and an estimate before two points are known is refused. A reset forgets every sample, those of the pending correction included.",
  ["histories", "inputs"], "all sequences of samples with increasing remote time, resets and period switches",
  "Tests feed one monotone noise pattern; a shrinking hull after growth needs a special sequence.",
  ["sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp", "sm_timing/include/sm/timing/TimestampCorrector.hpp"], [("hull", "TimestampCorrector::correctTimestamp, reset, getSlope, getOffset, getLocalTime")])

p("T04", "Timers: handles, measured intervals and statistics",
  "Equal tags have the same handle, a new tag gets the next free one, and an unknown handle is refused. Starting a running timer and stopping a stopped one is refused, every stop adds exactly the seconds since the timer's start once to the record of its own tag, and a running timer that goes out of scope is stopped. Each statistic, asked for by handle or by tag, is the one of that name over the intervals recorded for it since its last reset, the sorted table is ordered by the statistic named, and a time is printed as hours, minutes and seconds.",
  ["inputs", "histories"], "all tags, handles, and sequences of timer operations",
  "The tests start and stop a few timers; a statistic of the wrong accumulator, a wrong handle, or a start or stop in the wrong state needs a particular history.",
  ["sm_timing/src/Timer.cpp"], [("timers", "sm::timing::Timer::start, stop, ~Timer; Timing::getHandle, getTag, addTime, get*Seconds, getNumSamples, getHz, reset, print, secondsToTimeString")])
p("E01", "Matrix serialisation: loading consumes exactly what saving wrote",
  "For matrices of fixed size and of dynamic rows, columns or both, including empty ones, the serialisation reader consumes the same sequence of fields under the same conditions as the writer emitted, and refuses data whose fixed dimensions do not match the target.",
  ["inputs"], "all matrix shapes, fixed or dynamic, including zero-sized ones",
  "Tests round-trip non-empty matrices.",
  ["sm_eigen/include/sm/eigen/serialization.hpp"], [("codec", "boost::serialization save/load for Eigen matrices")])
p("E02", "Matrix square roots, numerical Jacobians and normal vectors are what they say",
  "The square root S of every symmetric positive semidefinite matrix A, singular ones included, satisfies S*S' = A and holds no NaN. The numerical Jacobian of any function at any point is, column by column, the central difference (f(x+h*e)-f(x-h*e))/(2h) with h the larger of eps and eps*|x_c|, and the convenience function applies the caller's function and step. A vector of normal samples holds one fresh draw per entry.",
  ["inputs"], "all positive semidefinite matrices; all functions, points and steps",
  "The tests use positive definite matrices that need no pivoting, and Jacobians near the origin, where both step rules agree.",
  ["sm_eigen/include/sm/eigen/matrix_sqrt.hpp", "sm_eigen/include/sm/eigen/NumericalDiff.hpp", "sm_eigen/src/random.cpp"],
  [("square root", "sm::eigen::computeMatrixSqrt"), ("Jacobians", "sm::eigen::NumericalDiff::estimateJacobian, numericalDiff"), ("samples", "sm::eigen::randn")])
p("P06", "Vectors, quaternions and poses read from a property tree",
  "A vector read from a property tree has the values of the keys x, y and z as its coefficients in this order, a quaternion those of x, y, z and w, and no key has a default. A pose has the rotation of the quaternion under q_a_b, scaled to length one, and the translation under t_a_b_a, for every tree that holds these keys.",
  ["inputs"], "all property trees",
  "No test reads a vector or pose from a tree.",
  ["sm_eigen/include/sm/eigen/property_tree.hpp", "sm_kinematics/include/sm/kinematics/property_tree.hpp"],
  [("vectors", "sm::eigen::vector3FromPropertyTree, quaternionFromPropertyTree"), ("poses", "sm::kinematics::transformationFromPropertyTree")])
p("S01", "Serialisation and binary equality cover every data member",
  "Saving a value of any of the library's serialisable types (transformations, homogeneous points, uncertain vectors, ids) and loading it into another object makes that object a copy: every data member and every base that carries data is written and read back in the same order under the same tags. Every binary-equality test holds exactly when each data member and such base of both objects is equal, also when the comparison macros are combined with && or given pointers.",
  ["inputs", "programs"], "all serialisable types and values",
  "A forgotten member goes unnoticed when both compared objects have its default value.",
  ["sm_kinematics/include/sm/kinematics/Transformation.hpp", "sm_kinematics/include/sm/kinematics/HomogeneousPoint.hpp", "sm_kinematics/include/sm/kinematics/UncertainVector.hpp", "sm_common/include/sm/Id.hpp", "sm_common/include/sm/serialization_macros.hpp"],
  [("serialisation", "every serialize/save/load member"), ("equality", "every isBinaryEqual member")])
p("S02", "Objects saved to files: written completely or refused, read back by the namesake",
  "For every object, path and tag, saving in binary, text or XML writes one archive of that kind to a freshly truncated file, in XML under the tag given or \"object\" when none or an empty one is given, and the load function of the same name reads that kind into the caller's object. A file that cannot be opened raises an error, and a save returns normally only if everything the archive and the stream held has reached the file. The version macros record for every class, templates included, exactly the version the class states.",
  ["inputs", "faults"], "all objects, paths, tags and points at which writing fails",
  "Tests save small points to a writable directory with room on the disk.",
  ["sm_boost/include/sm/boost/serialization.hpp"], [("files", "sm::boost_serialization::save, load, save_txt, load_txt, save_xml, load_xml"), ("versions", "SM_BOOST_CLASS_VERSION*")])
p("S03", "Images and key points saved to an archive are read back unchanged",
  "For every image - whole, empty, a part of a larger one, a single row of it - saving it and loading it into any other image leaves that image with the rows, columns, type and pixels of the source, and a key point or point with all members of the source. The pixels written and read are exactly the rows*columns pixels of the image as one block of memory: nothing outside an image is written to the archive, and loading into a part of a larger image changes no memory outside it. Two images are reported equal exactly if their sizes, types and all bytes of all rows are.",
  ["inputs", "histories"], "all images, sizes, types and strides, and all previous contents of the image loaded into",
  "The package is not built where OpenCV is missing, and no test saves an image.",
  ["sm_opencv/include/sm/opencv/serialization.hpp"], [("images", "boost::serialization::save, load(cv::Mat)"), ("points", "serialize(cv::KeyPoint), serialize(cv::Point2f)"), ("equality", "sm::opencv::isBinaryEqual")])
p("Y01", "Python bindings: every name calls its namesake, on the right object",
  "Every name the Python module exports calls the C++ function of that name on the class it is exported for, with all its arguments in their order, and a class that replaces a member of its base or adds to its state exports its own version, also for pickling. Among the overloads of a name the most specific one that accepts the arguments is called, classes are exported after their bases, every exporter runs, and every enumerator stands for its namesake. The Python logging helpers write exactly the messages at or above the logging level, at the level they are named for and with the caller's place.",
  ["inputs"], "all exported names, overloads and arguments",
  "No test imports the Python module; it is not even built here.",
  ["sm_python/src", "sm_python/python/sm/__init__.py"], [("bindings", "the init function of libsm_python and the exporters it calls"), ("helpers", "sm_python/python/sm/__init__.py: log*")])
p("R01", "Random numbers: every draw comes from the one seedable source",
  "Every random number the library's random module hands out is drawn from the single process-wide generator that seeding controls, one draw per call, and seeding with a value determines all later draws, whatever was drawn before. The uniform functions return one draw from [0, 1) and the normal ones one draw of mean 0 and deviation 1; the range helpers return lower + draw*(upper - lower), for integers with the product rounded down, for every pair of bounds including those further apart than the largest int.",
  ["inputs", "histories"], "all seeds and sequences of draws",
  "There is no test of the random module.",
  ["sm_random/src/random.cpp", "sm_random/include/sm/random.hpp"], [("source", "sm::random")])
p("H01", "Public headers can be included by any number of source files",
  "Each public header of the built packages compiles as the first or only include of a source file, and what it defines at namespace scope may appear in any number of source files of one program: functions are inline, templates or internal to their file, and variables are constants or internal. Every function a public header declares for use is defined, in a header or in the library's built sources; a function template defined in a source is explicitly instantiated there, for float whenever for double and vice versa.",
  ["programs"], "all programs that include any set of public headers in several source files",
  "Tests include each header in one source file only.",
  ["sm_boost/include/sm/boost/ptime.hpp", "sm_timing/include/sm/timing/NsecTimeUtilities.hpp"], [("headers", "all public headers of the built packages")])

QA = ["sm_kinematics/src/quaternion_algebra.cpp"]
p("K01", "Rotations: every constructed rotation matrix is a proper rotation",
  "For all angles, axes, unit quaternions and rotation parameters, every function that builds a rotation matrix returns a matrix whose transpose is its inverse and whose determinant is one, in exact arithmetic; the passive (C) principal-axis rotations are the transposes of the active (R) ones, and every Euler form is the documented product of its principal-axis rotations.",
  ["inputs"], "all real angles, axes and unit quaternions",
  "Tests sample random angles with a tolerance; they do not cover every builder.",
  ["sm_kinematics/src/rotations.cpp"] + QA + ["sm_kinematics/src/EulerAnglesZXY.cpp", "sm_kinematics/src/EulerAnglesZYX.cpp", "sm_kinematics/src/EulerAnglesYawPitchRoll.cpp", "sm_kinematics/src/EulerRodriguez.cpp", "sm_kinematics/src/RotationVector.cpp"],
  [("builders", "Rx, Ry, Rz, Cx, Cy, Cz, rph2R, rph2C, axisAngle2R, quat2r, parametersToRotationMatrix")])
p("K02", "Quaternions: products, inverse and rotation satisfy the algebra",
  "For all quaternions, the two product functions and the two product matrices describe the same product from either side, the product is associative, the identity is neutral, a unit quaternion times its inverse is the identity, the rotation matrix of a product is the product of the rotation matrices, and rotating a vector equals multiplying it by the rotation matrix; the minimal update equals multiplying by the quaternion of the update. Interpolation starts at the first quaternion, ends at the second, and in between follows the relative rotation, the shorter way round, in proportion to the parameter.",
  ["inputs"], "all quaternions (unit ones where required) and vectors",
  "Tests sample random quaternions against hand-picked identities.",
  QA, [("algebra", "qplus, qoplus, quatPlus, quatOPlus, quatInv, quatRotate, quat2r, updateQuat")])
p("K03", "Transformations: class operations agree with homogeneous matrix algebra",
  "For all transformations, composing, inverting and applying them to points, homogeneous points and vectors gives what multiplying, inverting and applying their 4x4 matrices gives; every 4x4 result has the exact last row (0,0,0,1); rotating ignores the translation; a stored quaternion is normalised on construction. Interpolating between two transformations follows their quaternions' interpolation and the straight line between their translations in proportion to time, whichever of the two is given first.",
  ["inputs"], "all unit quaternions, translations and points, including points at infinity",
  "Tests sample random transformations, never points at infinity for every overload.",
  ["sm_kinematics/src/Transformation.cpp", "sm_kinematics/src/transformations.cpp"], [("class", "Transformation"), ("matrices", "rt2Transform, inverseTransform, toTEuler")])
p("K09", "Homogeneous points: every operation is the Euclidean one on what they stand for",
  "A homogeneous point made or set from a Euclidean point, or from a column of any weight including zero, holds exactly that column, and converting it back yields the Euclidean point whatever its weight. Adding, subtracting, scaling and normalising points (certain or uncertain), converting to and from points at infinity, and converting many columns at once do to the points they stand for what the operation is named after; the small update of a point is the rotation by that vector. An uncertain point reports the mean and covariance it was given, none for one that was given no covariance.",
  ["inputs"], "all points, weights, vectors, scales and covariances",
  "Tests use random points of weight near one.",
  ["sm_kinematics/include/sm/kinematics/HomogeneousPoint.hpp", "sm_kinematics/src/HomogeneousPoint.cpp", "sm_kinematics/src/homogeneous_coordinates.cpp", "sm_kinematics/src/UncertainHomogeneousPoint.cpp"],
  [("points", "HomogeneousPoint::*"), ("columns", "toHomogeneous, fromHomogeneous, toHomogeneousColumns, fromHomogeneousColumns")])
p("K10", "Random transformations are transformations within the bounds; angle units",
  "Every random quaternion and every random transformation (plain or uncertain) has a quaternion of unit length; with bounds, its translation is no longer than the first and its rotation angle no larger than the second. "
  "angleMod changes an angle by whole turns only and brings it within half a turn of zero; deg2rad and rad2deg convert with the factors pi/180 and 180/pi.",
  ["inputs"], "all outcomes of the random draws, all bounds, all angles",
  "Random results are never compared with a fixed value by a test; a factor that is wrong by little passes a tolerance.",
  ["sm_kinematics/src/Transformation.cpp", "sm_kinematics/src/UncertainTransformation.cpp", "sm_kinematics/src/quaternion_algebra.cpp", "sm_kinematics/src/rotations.cpp"], [("random", "setRandom, quatRandom"), ("angles", "angleMod, deg2rad, rad2deg")])
p("K04", "Uncertainty: covariance is propagated by the operation's own derivative",
  "The covariance of the result of every operation on uncertain vectors, points and transformations is the sum over its uncertain operands of J*P*J^T, with J the derivative of that operation's mean with respect to that operand's perturbation; combining with a certain operand gives what combining with the same operand of zero covariance gives. An uncertain vector or transformation reports the mean and covariance it was made or set with, none if it was given none, two variances filling the diagonal, translation first; symmetric input covariances give symmetric output covariances.",
  ["inputs"], "all means and covariances",
  "Tests compare a few operations with numerical differentiation at random points.",
  ["sm_kinematics/src/UncertainTransformation.cpp", "sm_kinematics/src/UncertainHomogeneousPoint.cpp", "sm_kinematics/src/HomogeneousPoint.cpp", "sm_kinematics/include/sm/kinematics/implementation/UncertainVector.hpp"],
  [("propagation", "operators of UncertainTransformation, UncertainHomogeneousPoint, UncertainVector")])
p("K05", "Jacobians are the derivatives of the values they accompany",
  "Every function that returns or fills a Jacobian returns exactly the matrix of partial derivatives of the value it accompanies, for all inputs where the value is differentiable; the matrices mapping parameter rates to angular velocity are consistent with the rotation matrix of the same parameters.",
  ["inputs"], "all inputs away from singularities",
  "Tests compare with finite differences at random points and a tolerance that hides small terms.",
  ["sm_kinematics/src/homogeneous_coordinates.cpp"] + QA + ["sm_kinematics/src/RotationVector.cpp", "sm_kinematics/src/EulerRodriguez.cpp", "sm_kinematics/src/EulerAnglesZXY.cpp"],
  [("Jacobians", "angularVelocityAndJacobian, toEuclideanAndJacobian, quatJacobian, quatLogJacobian, boxMinus, normalizeAndJacobian")])
p("K06", "Parameter extraction inverts the rotation builder of the same convention",
  "Extracting parameters from the rotation matrix built from parameters gives back those parameters for every Euler convention, the rotation vector, the Euler-Rodriguez parameters and the axis-angle functions and all parameters in the open principal range; the conversions between transformation matrices and six-parameter columns are inverse in the same sense.",
  ["inputs"], "all parameters inside the principal range",
  "Tests sample the range at random for some of the conventions.",
  ["sm_kinematics/src/rotations.cpp", "sm_kinematics/src/EulerAnglesZXY.cpp", "sm_kinematics/src/EulerAnglesZYX.cpp", "sm_kinematics/src/EulerAnglesYawPitchRoll.cpp", "sm_kinematics/src/RotationVector.cpp", "sm_kinematics/src/EulerRodriguez.cpp", "sm_kinematics/src/transformations.cpp"],
  [("pairs", "rph2R/R2rph, rph2C/C2rph, axisAngle2R/R2AxisAngle, parametersToRotationMatrix/rotationMatrixToParameters, toTEuler/fromTEuler")])
p("K07", "Rotation extraction never takes an inverse sine or cosine outside [-1,1]",
  "Wherever the library extracts angles from a rotation matrix or quaternion, the argument of each inverse sine or cosine is confined to the interval from minus one to one on every path and the square roots of the extraction have no negative radicand, so rounding errors in a valid rotation never turn into NaN.",
  ["inputs"], "all rotation matrices and quaternions within rounding of valid ones",
  "Random tests practically never hit the rounding cases at the ends of the range.",
  ["sm_kinematics/src/rotations.cpp", "sm_kinematics/src/RotationVector.cpp", "sm_kinematics/src/EulerRodriguez.cpp"] + QA, [("inverse functions", "every call of asin and acos")])
p("K08", "Small-angle branches continue the general formula",
  "Where a function switches to a series for small angles, the series agrees with the general formula of the other branch in all the terms it carries, the terms it leaves out are negligible at the switching threshold, and the switch depends only on the magnitude of the angle, so that no input crosses a jump and negative angles are treated like positive ones.",
  ["inputs"], "all inputs near the switching threshold on either side",
  "The error of a wrong series term at the threshold is below the tolerances of the tests.",
  QA + ["sm_kinematics/src/rotations.cpp", "sm_kinematics/src/RotationVector.cpp"], [("switches", "axisAngle2quat, quat2AxisAngle, expDiffMat, logDiffMat, axisAngle2R, parametersToSMatrix")])
p("N01", "Point-set alignment returns the optimal rigid motion",
  "For every sequence of matched points, threePointSvd returns the rigid motion (rotation without mirroring, translation) of p1 onto p0 that minimises the sum of squared distances, given that Eigen's decomposition delivers orthogonal factors in decreasing order. "
  "For every sequence of matched unit directions and positive weights (one each if none are given), qMethod returns the rotation C that maximises the weighted sum of p0_i . C p1_i.",
  ["inputs"], "all point sets; the loops are unrolled for one to four pairs",
  "Optimality over all inputs cannot be sampled; mirrored and degenerate sets are rare.",
  ["sm_kinematics/src/three_point_methods.cpp"], [("alignment", "threePointSvd, qMethod")])
p("N02", "Clock correction follows the lower hull over the middle of the span",
  "After every sequence of samples with increasing remote time, the points a timestamp corrector keeps are the lower convex hull of the samples (points on a side may be kept or not). "
  "correctTimestamp(remote, local) returns the local time while fewer than three points are kept, and otherwise the value, at the sample's remote time, of the line through the two neighbouring kept points around the middle of the first and the last remote time.",
  ["histories"], "all sequences of samples, by induction over the samples; kept points unrolled up to four",
  "The hull is a function of the whole history.",
  ["sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp", "sm_timing/include/sm/timing/TimestampCorrector.hpp"], [("hull", "TimestampCorrector::correctTimestamp, isAboveLine, isAboveTopLine, getLocalTime")])
p("N03", "Timer statistics equal the statistics of the measured intervals",
  "The reported count, total, mean, variance, minimum and maximum of a timer equal those of the intervals measured, and rates are taken over the documented window.",
  ["histories"], "all histories of timer starts and stops",
  "Depends on the running values of an accumulator over unbounded histories.",
  ["sm_timing/include/sm/timing/Timer.hpp", "sm_timing/src/Timer.cpp"], [("accumulators", "TimerMapValue")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
