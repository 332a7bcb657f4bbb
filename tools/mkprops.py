#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S="src/Surface/Surface.cpp"; C="src/Curve/Curve.cpp"; U="src/Utils/Serialization.cpp"
K="src/Core/KnotVector.cpp"; B="src/Basis/BSplineBasis.cpp"; G="include/libnurbs/Core/Grid.hpp"
KR="src/Algorithm/KnotRemoval.cpp"; DA="src/Algorithm/DegreeAlgo.cpp"
GR="src/Geometry/GeomRect.cpp"; GS="src/Geometry/GeomSegment.cpp"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

p("C01","A save that returns has delivered every byte",
  "When saving a curve or surface, to a file path or to an output stream, in text or binary mode, returns without an exception, the destination has accepted every byte of the model. If the destination refuses data at any point - when it is opened, at any write, at the final flush or when it is closed - the save ends in an exception. Once the fault is gone, saving the same model again succeeds and the destination holds exactly what an undisturbed save writes.",
  ["fault_sequences","inputs"],"every model, both formats, both destinations, every byte offset and every kind of refusal (open, write, short write, flush, close, out of memory), alone and in sequence",
  "The tests only save to string streams that never refuse anything; no test makes a destination fail, and none looks at a path save at all.",
  [S,C,U],[("stream state checked after each binary field and once at the end",f"{S} Surface::SaveToFile, {C} Curve::SaveToFile"),("write helpers check the stream",f"{U} WriteKnotVectorToStream, WriteVec4ToStream"),("path overload closes the file and checks it",f"{S}, {C} SaveToFile(filename)")],
  ["exception or return of SaveToFile","bytes the destination accepted"])

p("C02","A failing input source is never taken for the end of the data",
  "When the input stream (or, in binary mode, the file) reports a failure while a curve or surface is being loaded, at whatever byte, in text or binary mode, the load ends in an exception and never returns a model built from the part it had read. A source that works but hands out its bytes in pieces of any size loads exactly the same model as one that hands them out at once. After the failure the load ends within a bounded number of further reads.",
  ["fault_sequences","inputs"],"every saved model, both formats, every failure offset, every chunking of the source, source buffers that throw or set the bad state, with or without stream exceptions enabled",
  "The tests load from string streams, which cannot fail and hand out everything in one piece.",
  [S,C,U],[("read helpers check the stream",f"{U} ReadKnotVectorFromStream, ReadVec4FromStream"),("bad state checked after the line loop",f"{S}, {C} LoadFromFile(istream)")],
  ["exception or return of LoadFromFile","loaded model"])

p("C03","A torn save is never loaded as a complete model",
  "If the process dies while it saves a model over an existing file, a later load of what the storage kept gives the old model, the complete new model, or an exception. A binary file cut short at any byte is refused. A text file cut short is refused whenever a whole section is missing or, for a surface, any control point is missing.",
  ["crash_points","inputs"],"every crash point of the save (before the open, after the truncation, after any byte that reached the storage, before the close), every pair of old and new model, both formats",
  "No test crashes a save or loads a prefix of a saved file; the quantifier is every byte offset of every file.",
  [S,C,U],[("every binary field read is checked",f"{U}, {S}, {C}"),("control point rows counted against the grid size",f"{S} text mode"),("all sections required",f"{S}, {C} text mode")],
  ["load of the surviving file in a fresh process"])

p("C04","What was saved loads back the same, however the bytes travel",
  "A curve or surface with finite values loads back with the same degrees, knots and control points: bit for bit in binary mode, and with no number off by more than 1e-17 in text mode, whether it went through a path or a stream and however the stream is split into pieces on either side. Binary records and foreign data may follow each other in one stream: each load takes exactly its own record and leaves the stream at the next byte. A text file also loads the same after line ends were converted, blank lines added or lines padded with blanks.",
  ["inputs","histories","schedules"],"every model (sizes, degrees, magnitudes), every chunking of writes and reads, every sequence of records in one stream, every legal re-formatting of a text file in transit",
  "The tests round-trip a few hand-made models through one string stream each; they never split the stream, chain records or use a path.",
  [S,C,U],[("length-prefixed binary records",f"{U}, {S}, {C}"),("17 decimals in text mode",f"{S}, {C} SaveToFile"),("line trimming",f"{U} TrimString")],
  ["loaded model","stream position after the load"])

p("C05","A load is all or nothing",
  "A load that ends in an exception leaves the object it was called on exactly as it was, whatever the reason: bad content, a failing source, a missing file or exhausted memory. A load that returns replaces the whole object, so that the result does not depend on what the object held before or on earlier failed loads into it.",
  ["histories","fault_sequences"],"every sequence of successful and failed loads (truncated, damaged, failing source, out of memory) into one object, both formats, stream and path",
  "Every load in the tests goes into a fresh object, once; the object is never inspected after a failure and never loaded twice.",
  [S,C,U],[("parse into a scratch object, then move it over",f"{S}, {C} LoadFromFile(istream)")],
  ["object state after LoadFromFile throws or returns"],
  state=[("model fields","degree, knots and control points of the object being loaded","include/libnurbs/Curve/Curve.hpp, include/libnurbs/Surface/Surface.hpp")])

p("C06","Damaged files are handled safely",
  "Loading a file with any damage - flipped bits, overwritten or exchanged blocks, absurd counts, mangled text - either ends in an exception or gives an object whose control grid dimensions are positive and match the number of control points it holds, so that it can be saved and loaded again. It never reads or writes outside memory, performs undefined arithmetic, runs on without consuming input, or allocates memory out of proportion to the bytes really present.",
  ["fault_sequences","inputs"],"every saved file of every model, every combination of bit flips, overwrites, block moves, splices, edits of counts and tokens",
  "The tests try about a dozen hand-made malformed texts and no damaged binary file.",
  [S,C,U],[("counts and dimensions checked before use",f"{S}, {C}, {U}"),("token-wise parsing with checks",f"{S}, {C} process_key")],
  ["exception or return of LoadFromFile","grid dimensions and value count","memory requested"])

p("C07","Files do not depend on locale or stream formatting state",
  "The bytes a save writes and the model a load reads do not depend on the process-wide C or C++ locale, on the locale or formatting flags of the stream passed in, or on changes of these between save and load. A save or load leaves the formatting flags, precision, fill character and locale of the caller's stream and the process-wide locale as it found them, also when it fails.",
  ["configurations","histories"],"every C or C++ locale with any decimal point, thousands separator and grouping, every combination of stream flags, precision, width and fill, changed at any point between operations",
  "The tests run in the classic locale with freshly made streams only.",
  [S,C,U],[("formatting in the classic locale with fixed flags",f"{S}, {C} SaveToFile(ostream)"),("number parsing in the classic locale",f"{S}, {C} process_key, {U} ReadVec4FromText")],
  ["bytes written","loaded model","state of the caller's stream"])

p("C08","Concurrent readers of one model do not disturb each other",
  "Any number of threads may at the same time evaluate, differentiate, search, refine into new objects, inspect or save one shared curve, surface, knot vector or control grid that nobody modifies. Every call returns exactly what the same call returns when it runs alone, and no data race occurs, in every interleaving.",
  ["schedules","inputs"],"every interleaving of every set of read-only calls on shared objects by several threads, including calls that fail part-way",
  "All tests are single-threaded; a race shows only in particular interleavings.",
  [S,C,K,B,KR,DA,G],[("read-only member functions work on local copies, no shared mutable state",f"{S}, {C}, {K}, {B}")],
  ["results of the calls","memory accesses of the threads"])

p("C09","Threads working on separate objects do not disturb each other",
  "Threads that each load, save, build and edit their own curves, surfaces, knot vectors, grids, streams and files never affect one another. Every call has exactly the result and effect it has when it runs alone, also while another thread's call is failing, no data race occurs, and every thread finishes, in every interleaving.",
  ["schedules","fault_sequences"],"every interleaving of loads, saves, construction and editing on separate objects by several threads, with stream faults in some of them",
  "All tests are single-threaded; hidden shared state shows only in particular interleavings.",
  [S,C,U,K,B,KR,DA,G,GR,GS],[("no shared mutable state in the library",f"{S}, {C}, {U}, {K}, {B}, {KR}, {DA}")],
  ["results and effects of the calls","memory accesses of the threads","progress of the threads"])

p("C10","Running out of memory in a query or edit has no side effects",
  "When memory runs out at any allocation inside an evaluation, search, knot insertion or removal, degree elevation, transformation, Bezier extraction, bounding box or construction call on a curve, surface, knot vector, basis or geometric primitive, the call ends in an exception or still returns exactly its normal result. The objects and arguments it was given are exactly as they were, and the same call repeated with memory available gives exactly the result of an undisturbed call.",
  ["fault_sequences","inputs","histories"],"every allocation of every such call failing, once or from then on, on every model, in every sequence of calls",
  "The tests never make an allocation fail.",
  [S,C,K,B,KR,DA,G,GR,GS],[("const member functions work on copies",f"{S}, {C}"),("containers with the strong guarantee",f"{K}, {G}")],
  ["exception or result","state of the receiver and arguments"])

p("C11","In-place edits of knot vectors and grids are all or nothing",
  "Inserting knots into a knot vector, inserting a row or column into a grid of points or numbers, and setting rows or columns either take full effect or, when memory runs out, leave the object exactly as it was. In both cases the grid's dimensions match the number of values it holds and the knots stay sorted. Over any history of such edits and failures the contents are those of a plain list-of-lists model.",
  ["histories","fault_sequences"],"every history of edits with allocation failures at any point in it",
  "The tests perform one or two edits on one grid and one knot vector and never fail an allocation.",
  [G,K],[("row and column insertion",f"{G} InsertU, InsertV"),("sorted insertion",f"{K} InsertKnot")],
  ["dimensions, values and knots after each edit"],
  state=[("UCount, VCount, Values","grid dimensions and row-major values; Values.size() is always UCount*VCount",G)])

p("C12","Results do not depend on the history of calls",
  "Every call gives the result that the same call gives as the first call of a fresh process: it depends only on the values of the object and arguments at the time of the call, never on earlier calls, earlier failures, copies, assignments or in-place changes of fields. No call changes any object other than the one it is documented to modify, and copies are independent of their originals.",
  ["histories","fault_sequences"],"every sequence of queries, edits, loads, saves, assignments and field changes over a pool of objects, with failed calls in between",
  "Each test makes a few calls in one fixed order in a fresh process and compares with constants.",
  [S,C,K,B,KR,DA,U,G,GR,GS],[("no state outside the objects",f"{S}, {C}, {K}, {B}, {KR}, {DA}"),("value semantics of all types","include/libnurbs/Curve/Curve.hpp, include/libnurbs/Surface/Surface.hpp")],
  ["results of all calls","state of all objects"])

p("C13","No call leaks memory or file handles, however it ends",
  "However a call ends - normally, by bad content, by a failing source or destination, or by exhausted memory - repeating it does not accumulate memory, and every file a path load or path save opened is closed when it returns or throws.",
  ["fault_sequences","inputs"],"every call of the library, every fault kind and fault position in it",
  "The tests neither inject faults nor account for memory or handles.",
  [S,C,U,K,B,KR,DA,G],[("containers and file streams own everything",f"{S}, {C}, {U}")],
  ["live allocations and open handles after the call"])

pure="The tests compare a handful of models at a handful of parameters."
p("G01","Basis functions form a partition of unity",
  "For every valid knot vector, degree and parameter in [0,1] the basis function values are non-negative, sum to one and vanish outside the span's support; their derivatives are the derivatives of those functions.",
  ["inputs"],"every degree, knot vector, parameter and derivative order",pure,[B],[("Cox-de Boor recursion",B)],["BSplineBasis results"])
p("G02","Evaluation gives the point of the rational B-spline",
  "Evaluating a curve or surface at any parameter in its domain gives the rational combination of its control points that the NURBS definition prescribes, up to rounding; it interpolates clamped ends and stays in the convex hull for positive weights.",
  ["inputs"],"every model and parameter",pure,[S,C,B,K],[("span search and homogeneous sum",f"{S}, {C} Evaluate")],["Evaluate results"])
p("G03","Derivatives are those of the evaluated shape",
  "Derivatives of any order up to the degree equal the derivatives of the evaluated curve or surface, for polynomial and rational models.",
  ["inputs"],"every model, parameter and order",pure,[S,C,B],[("quotient rule on homogeneous derivatives",f"{S}, {C} EvaluateAll")],["EvaluateDerivative results"])
p("G04","Knot insertion does not change the shape",
  "Inserting knots, once, repeatedly or as a list, in either direction, gives a model of the same degree with the new knots that evaluates to the same points and leaves the original unchanged.",
  ["inputs","histories"],"every model and list of knots",pure,[S,C,K,G],[("Boehm's algorithm",f"{S} InsertKnotU/V, {C} InsertKnot")],["Evaluate before and after"])
p("G05","Knot removal stays within tolerance and reports honestly",
  "Removing a knot changes the shape by no more than the tolerance, reports how often the knot was really removed, and gives back the same model when it was not removed.",
  ["inputs"],"every model, knot, count and tolerance",pure,[S,C,KR],[("knot removal with error bound",KR)],["Evaluate before and after","reported count"])
p("G06","Degree elevation does not change the shape",
  "Elevating the degree gives a model of the requested higher degree, with every distinct knot's multiplicity raised accordingly, that evaluates to the same points.",
  ["inputs"],"every model and count",pure,[S,C,DA],[("Bezier-wise elevation",DA)],["Evaluate before and after"])
p("G07","Parameter search finds a point on the model",
  "For a point on the curve or surface and a start near it, the searches return a parameter in the domain whose point is within the tolerance, after at most the allowed number of iterations.",
  ["inputs"],"every model, point, start value and tolerance",pure,[S,C],[("BFGS with line search; bisection",f"{S}, {C}")],["returned parameters"])
p("G08","Bezier pieces and bounding boxes cover the curve",
  "The Bezier pieces of a curve trace exactly the curve in order, and its bounding box contains every point of the curve.",
  ["inputs"],"every curve and tolerance",pure,[C,"include/libnurbs/Core/BoundingBox.hpp"],[("knot insertion to full multiplicity, subdivision",f"{C} ExtractBezier, GetBoundingBox")],["pieces and box"])
p("G09","Transforming and re-aligning act on the shape only as stated",
  "Transforming a model by a matrix transforms every point of its shape by that matrix; re-aligning a surface's parameter domain changes only the direction and order of its parameters, never the point set.",
  ["inputs"],"every model, matrix and pair of axes",pure,[S,C],[("control point transform; transpose and reversal",f"{S} Transform, AlignParameterDomain")],["Evaluate before and after"])
p("G10","Knot vector queries agree with the knots",
  "Span search, multiplicities, validity, clampedness, uniformity and reversal agree with the sorted list of knots they describe.",
  ["inputs"],"every knot vector and parameter",pure,[K],[("binary search and scans",K)],["query results"])
p("G11","Primitive builders give the straight segment and flat rectangle",
  "The segment and rectangle builders give models of the requested degree and point count whose shape is exactly the straight segment or the parallelogram through the given corners.",
  ["inputs"],"every degree, count and corner set",pure,[GR,GS],[("uniformly spaced control points",f"{GR}, {GS}")],["Evaluate of the built models"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,x["id"]
