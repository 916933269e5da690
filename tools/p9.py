import sys; sys.path.insert(0,'/verif/tools')
from mk import P
T="seeded deterministic simulation with fault injection"
LN="Seeded search, not proof: every run is one exactly repeatable execution of the real headers; "
OV=["histories","fault_sequences"]
P("C25","Initialisers put every value given in its place, and touch nothing else",
 "makeVector of 1 to 30 values, Data of 1 to 100, Fill, initializer lists, named element vectors and vectors over planar complex memory hold exactly the values given, in order (matrices row by row, whatever their layout), with the type and size promised; when the destination is a slice, row or transpose, the elements around it keep their values. Named elements and indexed ones are the same elements through every assignment, move, swap and arithmetic. When an allocation fails or the element type throws in the middle, the error reaches the caller, every element of the destination is the new or the old one, and nothing is leaked.",
 OV,"every number of values and destination shape, for built-in, complex and user element types, and a failure at any allocation or element operation",
 "tests initialise with at most a dozen doubles and print them; the generated code for up to 100 arguments, other element types and failures are not covered",
 ["TooN/internal/make_vector.hh","TooN/internal/data_functions.hh","TooN/internal/data.hh","TooN/internal/comma.hh","TooN/named_elements.h","TooN/internal/planar_complex.hh","TooN/internal/allocator.hh"],[("generated functions","TooN/internal/make_vector.hh, TooN/internal/data_functions.hh"),("Fill","TooN/internal/comma.hh VectorFiller, MatrixFiller"),("Data into vectors and matrices","TooN/internal/data.hh Operator<Internal::Data>"),("named elements","TooN/named_elements.h")],T,
 LN+"values are drawn distinct, allocations fail, a simulated element type throws at a seeded operation, heap and stack hold seeded garbage; every element of the destination and around it is checked after each initialisation.")
P("C26","Debugging options change checks and fresh elements, and nothing else",
 "Whatever the documented debugging options a program is compiled with (bounds, slice, size, fill and mismatch checks on or off, fresh elements NaN, a value or random), every valid operation of the library gives the same bits; no result depends on what fresh elements held. Fresh elements hold the documented value, in vectors and matrices of any storage, and those a resizable vector already had keep theirs. Requests which do not fit are rejected by abort in each build which promises that check, and leave the objects as they were. Differently compiled parts work in one program.",
 OV,"every seeded sequence of operations from all headers, misuses, clock readings (the seed of the random fill) and failed allocations, in seven builds",
 "all tests are compiled with the same options",
 ["TooN/internal/debug.hh","TooN/TooN.h","TooN/internal/slice_error.hh","TooN/internal/size_mismatch.hh","TooN/internal/overfill_error.hh"],[("initial values, bounds","TooN/internal/debug.hh debug_initialize, check_index"),("options","TooN/TooN.h TOON_NDEBUG"),("checks","TooN/internal/slice_error.hh, TooN/internal/size_mismatch.hh, TooN/internal/overfill_error.hh, TooN/internal/comma.hh")],T,
 LN+"the library is compiled seven times under different namespace names into one process; each build executes every seeded operation with different garbage in heap and stack, a simulated clock which jumps, and failing allocations, and the results are compared bit for bit.")
