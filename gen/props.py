#!/usr/bin/env python3
# Generates properties.jsonl and MANIFEST.json.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None,
         state=None, level="model_checking", technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mechanism=mechanism, observe=observe or [],
                  state=state or [], level=level, technique=technique, note=note))

def na(id, title, statement, over, text, why, files, mechanism, reason):
    prop(id, title, statement, over, text, why, files, mechanism)
    P[-1]["na"] = reason

EXH = "stateless model checking of the real code: exhaustive enumeration of "
TRUST = " Trusted: the reference model in the harness, AddressSanitizer, the explorer."

prop("C01", "Arrays are sequences under every history of operations",
 "Starting from nothing, a single value, or an array of any element type, any history of push, pop, unshift, shift, insert, append, remove, resize, presize, array, clear, copy, indexing and assignment leaves a variable holding exactly the elements, in exactly the order, that the same history leaves in an ideal sequence; pop, shift and remove return the element that they remove. sort() returns the elements in ascending order without changing the array, and index() finds the first equal element or reports none. An out of bounds access, removal from an empty array, or a value that cannot be cast to the element type throws and leaves the array as it was.",
 ["histories", "inputs"],
 "Every sequence of up to 3 (thorough: 4) of 23 operations with every position argument, over 8 element types and 4 initial states. Also arrays of up to 4097 elements built in 6 ways, followed by one of 17 operations.",
 "test-var pushes and pops a few fixed values; capacity growth, insertion at each position, element types other than int/char and self-aliasing histories are never combined.",
 ["lube/var.cpp", "lube/heap.cpp", "lube/heap.h", "lube/var.h"],
 [("var::push, pop, insert, remove, shift, unshift, sort, index", "lube/var.cpp"),
  ("Heap::resize, shift, unshift, append", "lube/heap.cpp")],
 technique=EXH + "operation histories against a std::vector model",
 note="Every history within the bounds is run on the real library under ASan and compared with the model after every step." + TRUST)

prop("C02", "Maps are ordered maps with unique keys under every history",
 "A variable indexed by key holds, after any history of insertions, assignments, look-ups, removals, unshared copies and clears, each key exactly once with the value last assigned to it, and enumerates its keys in ascending order of operator <. at(key) on an absent key gives nil and inserts nothing, index(key) gives the position of the key or reports absence, and removal by position removes that key with its value and no other. Keys may be numbers, strings, arrays, complex values or a mixture of types.",
 ["histories", "inputs"],
 "Every sequence of up to 4 (thorough: 5) operations over key alphabets of ints, strings, doubles, complex numbers, arrays and mixed types. Also maps of up to 1025 keys of 4 kinds in 5 orders.",
 "test-var builds two small maps in one order; insertion orders, removals and mixed key types are not tried.",
 ["lube/var.cpp", "lube/heap.cpp"],
 [("var::operator [](var), var::at(var), var::binary", "lube/var.cpp"),
  ("var::insert / remove for pairs", "lube/var.cpp")],
 technique=EXH + "operation histories against a std::map model",
 note="Every history within the bounds is compared with the model after every step." + TRUST)

prop("C03", "Sharing, copying and lifetime of values",
 "Assignment of an array or map to another variable, to an element, or into a container shares one storage, so a change made through any holder is seen through every other; single numbers and the result of copy() are independent of their origin at the first level. No history of such assignments, element references, overwriting, self-assignment and destruction reads or writes freed memory, releases storage that is still held, or (cycles apart) leaks it.",
 ["histories"],
 "Every sequence of up to 4 (thorough: 5) assignments, element assignments, copies, pushes, clears and scope exits over three variables and their elements. Also arrays and maps of up to 4097 elements.",
 "The tests never release shared storage in the middle of a history and are not run under a memory checker.",
 ["lube/var.cpp", "lube/heap.cpp", "lube/heap.h", "lube/view.cpp"],
 [("var copy/move constructors, operator =, attach, detach, dereference", "lube/var.cpp"),
  ("reference count of IHeap", "lube/heap.h")],
 technique=EXH + "aliasing histories against a shared_ptr object-graph model, with ASan and allocation balance",
 note="Every history within the bounds; memory errors by ASan, leaks by allocation balance over repeated executions." + TRUST)

prop("C04", "Comparison is a total order consistent with equality",
 "For any two comparable values (numbers other than NaN, complex numbers, strings, arrays, nested arrays, maps, views, nil), exactly one of a<b, a==b and b<a holds, < is transitive and == is an equivalence that is false for values of different type, content or size (a view being as the array of its elements); !=, >, <= and >= agree with them. Numbers of one type order numerically (complex ones by magnitude first), strings and arrays lexicographically, and a reference to an element compares as the element does. sort() of any array agrees with the order, on the array, on views and via the sort functor.",
 ["inputs"],
 "All pairs and triples from an alphabet of some 80 values of every kind, held directly, in arrays and in maps; all arrays of length up to 4 (thorough: 5) over 3 values for sorting. Also arrays of up to 4097 elements that differ in one place or in length.",
 "The tests compare a handful of ints and strings; laws over triples and mixed types cannot be sampled by fixed examples.",
 ["lube/var.cpp", "lube/heap.cpp", "lube/math.cpp"],
 [("var::operator !=, operator <", "lube/var.cpp"), ("Heap::neq, Heap::lt", "lube/heap.cpp"),
  ("Sort functor", "lube/math.cpp")],
 technique=EXH + "all value pairs and triples against the order laws and a reference comparison",
 note="Exhaustive over the stated alphabet of values." + TRUST)

prop("C05", "Scalar arithmetic and casts",
 "The sum, difference, product and quotient of two single values has the type of the left operand and the value that C++ gives after casting the right operand to that type; the compound forms store the same in place, and unary minus negates. cast<T>() converts between all numeric types as C++ does (a complex value keeps its imaginary part where the target can hold it), reads the number at the start of a string exactly as a C++ stream of the classic locale does, whatever the locale of the program, and throws, changing nothing, where a stream would fail. Neither form changes the right operand.",
 ["inputs"],
 "All pairs of 7 numeric types with all pairs of 6 values each, for 4 operators in 4 calling forms; all type pairs for casts; all strings up to length 5 (thorough: 6) over a numeric alphabet for parsing.",
 "test-math and test-var try one or two combinations of operand types.",
 ["lube/math.cpp", "lube/var.cpp", "lube/func.cpp"],
 [("Add, Sub, Mul, Div, Pow scalar()", "lube/math.cpp"), ("Cast functors", "lube/var.cpp")],
 technique=EXH + "all operand type and value combinations against C++ arithmetic",
 note="Exhaustive over the stated alphabet." + TRUST)

prop("C06", "Array arithmetic broadcasts element by element",
 "For arrays and views of float, double, cfloat and cdouble of any shape, addition, subtraction, multiplication and division by a single value, and addition, subtraction and multiplication by an array of the same shape or one whose shape is the trailing part of the left one's shape, give each element combined with the corresponding one of the repeated right operand, in place and out of place alike. The right operand is unchanged, as is the left out of place, also when operands share storage. Shapes that do not conform throw and leave both operands unchanged.",
 ["inputs", "histories"],
 "All shape pairs with up to 3 dimensions of size up to 3, 4 element types, 4 operators, 3 calling forms, and every overlap of views into one array; plus sequences of 3 in-place operations. Also rows of up to 4097 elements.",
 "test-math prints sums of two or three fixed arrays; non-trivial broadcasts, complex types and aliased operands are not exercised.",
 ["lube/math.cpp", "lube/func.cpp", "lube/var.h"],
 [("ArithmeticFunctor::broadcast, BinaryFunctor::broadcast", "lube/func.cpp"),
  ("Add, Sub, Mul, Div vector()", "lube/math.cpp")],
 technique=EXH + "all shapes, types and overlaps against element-wise loops",
 note="Exhaustive over the stated shapes; values are chosen so that every element is distinct and results are exact." + TRUST)

prop("C07", "Element-wise mathematical functions",
 "floor, sin, cos, tan, atan, sqrt, log, exp and pow applied to a single value, an array, a view or a nested array give at every element what the C++ library function gives for that type, and real, imag, abs, arg and norm give a real result of the same shape. Applied in place or into another variable the result is the same; applied out of place the input is unchanged, and a type for which the function is not defined throws.",
 ["inputs"],
 "All 14 functions over 4 types, 12 values, and scalars, arrays, 1-, 2- and 3-dimensional views with offsets, and nested arrays, in 3 calling forms. Also arrays of up to 4097 elements.",
 "test-math applies a few functions to one or two float values.",
 ["lube/math.cpp", "lube/func.cpp", "lube/math.h"],
 [("UnaryFunctor::operator(), broadcast", "lube/func.cpp"),
  ("*::scalar() functors, RealUnaryFunctor::alloc", "lube/math.cpp")],
 technique=EXH + "all functions, types, containers and calling forms against std::",
 note="Exhaustive over the stated alphabet; float results are compared to within 4 ulp." + TRUST)

prop("C08", "Sums, dot products and matrix products",
 "sum, asum and iamax reduce the last dimension of an array or view of any shape to the sum, the sum of absolute values (real types) and the index of the first largest absolute value (for complex, |re|+|im|) of each row. dot() gives the inner product of two vectors (conjugating the first if complex), the row-wise products of a matrix with a vector, and the matrix product of two real matrices; operands are unchanged, and shapes that do not conform throw.",
 ["inputs"],
 "All shapes up to 3 dimensions of size up to 3 (4 for vectors), views with offsets, 4 element types, all conforming and non-conforming shape pairs. Also rows of up to 4097 elements; products of matrices of up to 33 (thorough: 65) in each direction.",
 "test-math and test-lapack print a few products of fixed shape.",
 ["lube/math.cpp", "lube/func.cpp", "lube/clapack.cpp"],
 [("Sum, ASum, IAMax, Dot", "lube/math.cpp"), ("blas:: wrappers", "lube/clapack.cpp")],
 technique=EXH + "all shapes and types against naive loops",
 note="Exhaustive over the stated shapes; values are integers so that results are exact." + TRUST)

prop("C09", "Views address exactly the elements that they say they do",
 "A view of an array with shape s and offset o presents element (i,j,..) as element o+i*stride+j+.. of the underlying array in row-major order, for reading and writing, through (), [], at(), iteration, subviews and changed offsets; a view that would exceed the array, has a negative dimension or offset, or an index outside the shape, throws. Writing through a view changes exactly the addressed elements of the shared array; assigning an array of the same shape and type to a view writes through it, and copy() of a view is independent of the original.",
 ["inputs", "histories"],
 "All arrays of up to 6 elements, all shapes of up to 3 dimensions of size 0 to 3, all offsets, all subviews; then sequences of 3 writes, re-offsets, assignments and copies. Also views of up to 65 in each direction.",
 "test-var makes two views of one array with fixed shapes.",
 ["lube/view.cpp", "lube/var.cpp", "lube/heap.h"],
 [("View constructors, setStrides, offset, shape, stride, copyable", "lube/view.cpp"),
  ("var::view, subview, operator ()", "lube/var.cpp")],
 technique=EXH + "all shapes, offsets and write histories against an index-arithmetic model",
 note="Exhaustive over the stated shapes." + TRUST)

prop("C10", "Transpose, concatenate, set and swap move data exactly",
 "Transposing swaps the last two dimensions of a float or double view, in place or not, and twice is the identity. Concatenating arrays joins them along the last dimension, element for element and without changing them. set() copies, repeating the source over the destination, and swap exchanges the contents of two arrays of the same shape; shapes that do not conform throw.",
 ["inputs"],
 "All shapes of up to 3 dimensions of size 1 to 4 (5 for 2-D), in place and out of place; all pairs and triples of arrays to concatenate. Also matrices of up to 65 (thorough: 128) in each direction.",
 "test-math transposes two matrices.",
 ["lube/math.cpp", "lube/transpose-adhoc.cpp", "lube/transpose-mkl.cpp", "lube/func.cpp"],
 [("Transpose, Concatenate, Set, Swap functors", "lube/math.cpp"),
  ("transpose implementations", "lube/transpose-mkl.cpp")],
 technique=EXH + "all shapes against index permutation",
 note="Exhaustive over the stated shapes. Both the transpose built here and the portable in-place one are checked." + TRUST)

prop("C11", "Discrete Fourier transforms",
 "A forward transform of size n gives the sum over t of x[t] exp(-2 pi i t k / n) for the n/2+1 non-redundant k of real input and all n of complex input, for every row of an array; the inverse transform, which includes the division by n, gives the original back to rounding error, in single and double precision. The input is unchanged, outputs may be parts of larger arrays of which the rest is unchanged, transforms of the same object can be repeated with the same result whatever other transforms are in use, and an input or output of the wrong type or whose last dimension is wrong throws.",
 ["inputs", "histories"],
 "All sizes 1 to 12 (thorough: 32), 4 types, unit impulses at every position plus a dense signal (linearity reduces all inputs to these), 1-3 rows, repeated use. Also transforms of sizes up to 1025.",
 "test-math transforms one impulse of one size.",
 ["lube/dft-mkl.cpp", "lube/dft-kiss.cpp", "lube/dft.h"],
 [("DFTBase::vector, alloc", "lube/dft-mkl.cpp")],
 technique=EXH + "all sizes, types and basis inputs against the defining sum",
 note="Exhaustive over sizes and basis vectors; numerical tolerance n*eps." + TRUST)

prop("C12", "Polynomial roots and coefficients are inverse",
 "roots() of a real polynomial of degree 1 or more with non-zero leading coefficient gives exactly degree many values, each of which makes the polynomial vanish to rounding error, in conjugate pairs, for arrays in single and double precision and for each row of a matrix. poly() of those roots gives the coefficients divided by the leading one, and poly() of any roots the coefficients that Vieta's formulas give. Operands of other types and outputs that do not fit throw, unchanged.",
 ["inputs"],
 "All polynomials up to degree 3 (thorough: 4) with coefficients from a small set of values, and all root sets from a grid, float and double. Also roots of degree up to 40 (thorough: 60) that are well conditioned.",
 "test-lapack computes the roots of one polynomial.",
 ["lube/math.cpp", "lube/clapack.cpp"],
 [("Roots, Poly functors", "lube/math.cpp"), ("lapack::geev", "lube/clapack.cpp")],
 technique=EXH + "all small polynomials against evaluation and Vieta's formulas",
 note="Exhaustive over the coefficient alphabet; tolerance by conditioning of multiple roots." + TRUST)

prop("C13", "What is written as JSON reads back equal",
 "Printing any value built from nil, integers, finite floating point numbers with few digits, strings of any characters, arrays and string-keyed maps gives valid JSON text, and reading that text gives a value of the same structure, strings, keys and numbers; printing and reading that again changes nothing more. Whatever stream, locale, numeric precision or nesting is used, characters that JSON requires to be escaped are escaped and come back as the same characters. Each element of an array of anything and each entry of a map is on a line of its own, indented by two spaces more than what holds it.",
 ["inputs"],
 "All values up to depth 3 and width 2 over a leaf alphabet, all strings of up to 3 characters over an alphabet with quotes, backslashes, control characters and UTF-8. Also arrays, maps, strings and nests of up to 1025.",
 "test-json prints one nested value and reads one file.",
 ["lube/json.cpp", "lube/var.cpp", "lube/stream.cpp"],
 [("operator << and formatting", "lube/json.cpp"), ("JSON parser operator >>", "lube/json.cpp")],
 technique=EXH + "all small values through write, independent parse, and read",
 note="Exhaustive over the value grammar within bounds; an independent JSON parser in the harness checks the text." + TRUST)

prop("C14", "The JSON reader yields the value of the text, or throws",
 "For any well formed JSON text, reading yields the value that the JSON grammar assigns to it (true and false being 1 and 0), consuming nothing beyond it, so that several values can be read in succession. White space between tokens and the locale do not matter and escapes including \\u are decoded. Any other text throws, leaving the target variable as it was, except that missing or repeated commas, other forms of decimal number, and unescaped control characters may also be read as if they were proper. Reading never crashes, hangs, reads beyond the text or leaks.",
 ["inputs"],
 "All token sequences up to length 5 (thorough: 6) and all character strings up to length 4 (thorough: 5) over a JSON alphabet.",
 "test-json reads one well formed file; malformed input is not tried at all.",
 ["lube/json.cpp", "lube/stream.cpp"],
 [("JSON parser", "lube/json.cpp")],
 technique=EXH + "all short texts against an independent JSON recogniser",
 note="Exhaustive over the alphabet and lengths." + TRUST)

prop("C15", "String operations",
 "split(separator, max) gives the pieces between separators (at most max, the last holding the rest) so that joining them with the separator restores the string; split() does the same for runs of white space, dropping leading ones, and trailing ones except where they follow in the last of a limited number of pieces. strip removes leading and trailing white space only, toupper and tolower change the case of ASCII letters only, and each acts identically in place and out of place and on every string of an array; values that are not strings are refused or unaffected. Appending and inserting strings concatenates, and str() is the terminated content. A zero byte is a character like any other.",
 ["inputs", "histories"],
 "All strings up to length 6 over {a, B, space, tab, separator}, separators of length 1 and 2, all limits 0-4; all pairs for join, append and insert at every position. Also strings of up to 1025 parts.",
 "test-var splits and joins one or two sentences.",
 ["lube/string.cpp", "lube/var.cpp", "lube/heap.cpp"],
 [("var::split, join; Strip, ToUpper, ToLower", "lube/string.cpp"), ("var::append, insert, str", "lube/var.cpp")],
 technique=EXH + "all short strings against reference string functions",
 note="Exhaustive over the alphabet and lengths." + TRUST)

prop("C16", "Regular expression functors",
 "search() gives the leftmost match and its groups or nil, match() succeeds only if the whole string matches, and replace() replaces every match, for strings and for each string of an array. search and match leave the subject unchanged, a functor object can be reused with the same result each time, and an invalid expression throws without leaking. A subject may contain zero bytes.",
 ["inputs", "histories"],
 "All strings up to length 4 (thorough: 6) over {a,b,newline} against all of several hundred expressions generated from a grammar of characters, classes, repetition, alternation, groups and anchors, for which the harness has an independent matcher, in every calling form, with reuse. Also strings of up to 1025 matches.",
 "test-var matches two fixed strings.",
 ["lube/string.cpp", "lube/regex.h", "lube/func.cpp"],
 [("Search, Match, Replace", "lube/string.cpp"), ("RegExFunctor", "lube/string.cpp")],
 technique=EXH + "all short strings and a set of expressions against a backtracking reference matcher",
 note="Exhaustive over strings and over the expressions of the grammar within its bounds." + TRUST)

prop("C17", "String length counts UTF-8 characters",
 "len() of a string gives the number of UTF-8 encoded characters for every valid string, and a negative (false) value or an error, never a crash or an over-read, for every byte sequence that is not valid UTF-8 (overlong forms, surrogates and values above U+10FFFF included).",
 ["inputs"],
 "All code points in strings of one character, all strings of up to 3 characters over class representatives, and all byte strings up to length 4 over the representatives of every byte class.",
 "test-var takes the length of one accented string.",
 ["lube/utf8.cpp"],
 [("var::len", "lube/utf8.cpp")],
 technique=EXH + "all code points and all byte-class strings against a table-driven decoder",
 note="Exhaustive over code points and byte classes." + TRUST)

prop("C18", "String streams behave as a byte stream over the variable",
 "Characters written to a varstream, however interleaved with reads, putbacks and seeks, appear in order in its string, and reads give the bytes at the read position, each exactly once, ending with end-of-file when none is left. Formatted output and input give what the standard string streams give, for every byte value.",
 ["histories", "inputs"],
 "Every sequence of up to 5 (thorough: 6) put, write, formatted output, get, peek, putback, unget, read, getline, seek and clear operations.",
 "test-stream writes and reads one string.",
 ["lube/stream.cpp", "lube/var.h"],
 [("varbuf::overflow, uflow, underflow, pbackfail, seekpos", "lube/stream.cpp")],
 technique=EXH + "operation histories against a byte-vector stream model",
 note="Every history within the bounds is compared after every step." + TRUST)

prop("C19", "Text files and line input",
 "getline gives successive lines without their terminator, reporting end of input only when nothing is left, whatever the stream's buffering and wherever lines end. Writing an array of strings as a text file and reading it back gives the same array, one element per line, zero bytes included; a file that cannot be opened or written throws.",
 ["inputs", "fault_sequences"],
 "All texts up to length 7 over {a, newline, carriage return}, every division of the stream into short reads, and arrays of up to 3 lines; all failure cases.",
 "test-file prints one text file.",
 ["lube/string.cpp", "lube/txtfile.cpp"],
 [("var::getline", "lube/string.cpp"), ("txtfile::read, write", "lube/txtfile.cpp")],
 technique=EXH + "all short texts and all short-read divisions against a line-splitting model",
 note="Exhaustive over texts and chunkings within bounds; real files in a scratch directory." + TRUST)

prop("C20", "Configuration (ini) files",
 "Reading a configuration file gives for each section the last value assigned to each key, whatever the locale, with white space around keys and values removed and comments and blank lines ignored; writing a two-level map and reading it back gives the same map. A configuration object gives the value from its own section, in the requested type, or the supplied default if the entry is absent, and never changes another section.",
 ["inputs", "histories"],
 "All files of up to 4 lines from 14 line kinds; all two-level maps of 2 sections by 2 keys; all sequences of up to 4 configuration operations. Also files of up to 257 sections or entries.",
 "test-config and test-file each read one file.",
 ["lube/inifile.cpp", "lube/config.cpp", "lube/config.h"],
 [("inifile::read, write", "lube/inifile.cpp"), ("Config::config, configSet, configFile", "lube/config.cpp")],
 technique=EXH + "all short files and operation histories against a reference parser",
 note="Exhaustive over line kinds and lengths." + TRUST)

prop("C21", "Command line option parsing",
 "For any command line made of declared options, with values attached or separate, clustered, repeated or followed by --, parsing gives each option its last value (true for flags, the declared default if absent) and returns the remaining arguments in order. Parsing with another object, even one created earlier, is not affected by what was parsed before, and the loop interface reports the same options in order. For a command line that has undeclared options or lacks a value, parse() prints the help text and ends the program rather than returning, and the loop gives '?' in place of each. The help text, which can be had before anything is parsed, mentions each option, its description and its default.",
 ["inputs", "histories"],
 "All command lines of up to 4 (thorough: 5) words from a 12 word alphabet, for 2 option sets, parsed twice in succession; all of up to 3 (4) words from another 12 word alphabet that are not as declared.",
 "test-config parses one command line.",
 ["lube/config.cpp", "lube/config.h"],
 [("Option::parse, operator (), operator bool, args", "lube/config.cpp")],
 technique=EXH + "all short command lines against a reference getopt",
 note="Exhaustive over the word alphabet." + TRUST)

prop("C22", "XML files round-trip",
 "Any tree of named elements with attributes, text and nested elements that is written as XML is read back as the same tree, with every character of text and attributes that XML can carry preserved, line ends in text excepted. Reading a document of elements, attributes, text, and references to characters gives the tree that it describes; malformed documents and unreadable files throw, as does writing that fails, and nothing is leaked.",
 ["inputs"],
 "All trees up to 4 nodes with attributes and text from an alphabet including all escaped characters; all documents that are sequences of up to 5 (thorough: 6) tokens.",
 "test-file reads and writes one document.",
 ["lube/xmlfile.cpp", "lube/data.h"],
 [("Expat::parse and handlers", "lube/xmlfile.cpp"), ("XMLWriter", "lube/xmlfile.cpp")],
 technique=EXH + "all small trees and token sequences against a tree model and a well-formedness checker",
 note="Exhaustive within bounds; real files in a scratch directory." + TRUST)

prop("C23", "GEDCOM files",
 "Reading a well formed GEDCOM file gives every individual with name, title and sex, and every family with the positions of its husband, wife and children in the list of individuals, in file order, whatever the order of records and sub-records and whether or not it knows the tags of the others. Reading any other file either returns or throws; it does not crash or loop, and reading a second file with the same reader gives what a new reader gives.",
 ["inputs", "histories"],
 "All files of up to 4 (thorough: 5) records from 10 kinds, and records with up to 3 (4) sub-records from 12; all sequences of up to 3 (4) of 23 arbitrary lines, and every truncation. Also files of up to 257 individuals and families.",
 "test-file reads one file.",
 ["lube/gedfile.cpp"],
 [("GEDCOM::doFile, doIndividual, doFamily", "lube/gedfile.cpp")],
 technique=EXH + "all small line sequences against a reference reader",
 note="Exhaustive within bounds." + TRUST)

prop("C24", "Directory listings describe the file system exactly",
 "dir() lists each entry of a directory exactly once with its path, rdir() each entry below it at any depth, without following links, and tree() the same as nested maps whose leaves are files, following links to directories other than those that lead back up; with details requested each has its parent, stem and extension. A path that does not exist throws, an empty directory gives an empty result, and nothing in the file system is changed.",
 ["configurations"],
 "All directory trees of up to 4 (thorough: 5) entries and depth 3 with file, directory and link entries and names with and without extensions.",
 "test-path lists one fixed directory.",
 ["lube/path.cpp", "lube/path.h"],
 [("Path::dir, rdir, tree, bits", "lube/path.cpp")],
 technique=EXH + "all small directory trees against the tree that was created",
 note="Exhaustive over tree shapes; real directories in a scratch directory." + TRUST)

prop("C25", "Graphs contain exactly the vertices and edges added",
 "addVertex returns consecutive indices from 0, and the GraphViz file written after any history of addVertex and addEdge describes exactly those vertices and those directed edges, with their multiplicity. Graphs created from the same module are independent, and writing twice gives the same file. Vertices are called by their indices, whatever the locale.",
 ["histories"],
 "Every sequence of up to 5 (thorough: 6) operations on two graphs.",
 "test-graph builds one graph.",
 ["lube/graph.cpp", "lube/graph.h"],
 [("Graph::addVertex, addEdge, writeGraphViz", "lube/graph.cpp")],
 technique=EXH + "operation histories against an edge list, parsing the written file",
 note="Every history within the bounds." + TRUST)

prop("C26", "Module loading and life cycle",
 "Any history of loading modules by name, creating instances, using them and destroying the loader works as if each instance had been created alone: instances are independent, are destroyed exactly once with their loader, and none is used afterwards. A name with no library, a library with no factory, or a factory that makes nothing or throws gives an error, with nothing leaked or left loaded, and other loaders unaffected.",
 ["histories", "fault_sequences"],
 "Every sequence of up to 5 (thorough: 6) load, create, use and unload operations on three loaders, over working and faulty test modules.",
 "The tests load each module once and never fail.",
 ["lube/module.cpp", "lube/module.h"],
 [("module::module, ~module, create", "lube/module.cpp")],
 technique=EXH + "load/create/unload histories and faults against a life-cycle model with instrumented modules",
 note="Every history within the bounds; instances are counted by the test modules." + TRUST)

prop("C27", "Sound files round-trip",
 "Samples written as a sound file are read back, in the same shape (channels by frames, or a vector if there is one channel), as the same samples to the resolution of the 16 bit format, with the same rate, for any number of frames and channels, including none; other writers' files are read likewise. A missing or damaged file and an unwritable one throw without leaking.",
 ["inputs", "fault_sequences"],
 "All shapes of up to 3 channels by 5 frames plus vectors, over values at the format's limits; every truncation of a small file.",
 "test-file reads one file, which is not present in this tree.",
 ["lube/sndfile.cpp"],
 [("sndfile::read, write", "lube/sndfile.cpp")],
 technique=EXH + "all small shapes through a write and read, and all truncations",
 note="Exhaustive over the stated shapes; libsndfile is trusted." + TRUST)

prop("C28", "Plot files pass commands and data through intact",
 "What is written to the plotting program is exactly: the output commands if a file is named, then each string as a command line, each vector as one value per line and a terminator, each matrix one column per line and a terminator, in order, whatever the locale. Types that cannot be plotted throw, reading throws, and closing the module waits for the program.",
 ["inputs"],
 "All plot scripts of up to 5 items from an alphabet of strings, vectors of every numeric type, and matrices, with and without a file.",
 "No test uses this module at all.",
 ["lube/gnuplot.cpp"],
 [("gnuplot::write, puts", "lube/gnuplot.cpp")],
 technique=EXH + "all short plot scripts against the expected text, received by a stand-in program",
 note="Exhaustive within bounds; a stand-in gnuplot records what it receives." + TRUST)

prop("C29", "URL transfers deliver exactly the received bytes",
 "A transfer returns precisely the concatenation of the data delivered by the network library, whatever its division into deliveries and whatever bytes it contains, and an empty transfer an empty string. A failed transfer throws an error with the library's message, releases the connection, and does not affect later transfers.",
 ["fault_sequences", "inputs"],
 "All divisions of transfers of up to 5 bytes into deliveries, with failure at every point, in sequences of two transfers.",
 "test-curl needs a network and is not among the stable tests.",
 ["lube/curl.cpp"],
 [("Easy::perform, writeCallback", "lube/curl.cpp")],
 technique=EXH + "all chunkings and failure points with an interposed stand-in for libcurl",
 note="Exhaustive within bounds; libcurl itself is replaced by a stand-in." + TRUST)

prop("C30", "Errors carry their message",
 "The description of an error begins with the printed form of the value it was constructed with, remains valid for as long as the error or any copy of it exists, and constructing, copying and destroying errors neither leaks nor crashes wherever they are thrown from.",
 ["inputs", "histories"],
 "All values of an alphabet of every kind, and every sequence of up to 4 construct, copy, throw, catch and destroy operations, with backtraces on.",
 "The tests only ever print one error.",
 ["lube/var.cpp", "lube/throw.cpp"],
 [("error::error, what, backTrace", "lube/var.cpp")],
 technique=EXH + "error life-cycle histories with backtracing on, under ASan",
 note="Every history within the bounds." + TRUST)

prop("C31", "User defined functors are applied to every element or row",
 "A unary functor defined by a user for scalars is called exactly once for each element, and one for vectors of dimension d exactly once for each d-dimensional block, of any array or view (and, in place, of nested arrays), with outputs stored at the matching position; binary, arithmetic and n-ary functors pair up their operands by their leading dimensions in the same way, and throw without calling the functor where those do not match. Exceptions thrown by the functor pass through, leaving values that are still usable.",
 ["inputs", "fault_sequences"],
 "All shapes up to 3 dimensions of size up to 3, dimensions 0-2, in and out of place, with a throw at every call index. Also up to 1025 rows, or elements in a row.",
 "test-math has one user defined functor.",
 ["lube/func.cpp", "lube/func.h"],
 [("UnaryFunctor, BinaryFunctor, ArithmeticFunctor, NaryFunctor", "lube/func.cpp")],
 technique=EXH + "all shapes, functor kinds and throw points against expected call sequences",
 note="Exhaustive within bounds." + TRUST)

prop("C32", "Ranges",
 "range(lo, hi, step) gives lo, lo+step, .. up to and including hi, and irange the same excluding hi, of the type of the limits; the one argument forms start at 1 and 0. An empty interval gives nil; limits and steps that are not real numbers of matching type, or that would never end, throw; and the arguments, which may be references into arrays or maps, do not change.",
 ["inputs"],
 "All lo and hi in -4..6 and within 6 of the limits of each type, steps -1 to 4, fractions and the largest possible, for 5 numeric types, passed as values and as references to elements; all triples of 17 kinds of other argument.",
 "test-var prints three ranges.",
 ["lube/var.cpp"],
 [("range, irange", "lube/var.cpp")],
 technique=EXH + "all small arguments against a counting loop",
 note="Exhaustive within bounds." + TRUST)

prop("C33", "Index type",
 "An index is true exactly if it is not negative; complementing it changes its truth and twice gives the original value, over the whole range; increment, decrement and conversion behave as for the integer of pointer size.",
 ["inputs", "histories"],
 "All values within 1000 of zero and of both ends of the range and all powers of two, and all operation sequences up to length 5 from near those and 6 from them.",
 "test-ind prints four values.",
 ["lube/ind.h"],
 [("class ind", "lube/ind.h")],
 technique=EXH + "all operation sequences from boundary values against intptr_t",
 note="Exhaustive within bounds." + TRUST)

prop("C34", "Allocation failure leaves values intact",
 "If memory runs out during any operation that builds, grows, copies, combines, prints, parses, reads or writes values, the operation throws, its operands and any variable being assigned, grown or shrunk still have the value they had (a variable whose elements are being overwritten in place has a usable value), nothing is leaked or freed twice, later operations behave as on any such value, and the same operation succeeds once memory is available again. Messages of errors may be cut short.",
 ["fault_sequences", "histories"],
 "For each of some 210 operations, and 22 array operations over 9 element types and sizes around where they grow, failure of every single allocation that it makes (each n-th allocation in turn), alone, with all after it, or followed by a second one; then one of 12 further operations.",
 "No test injects a fault.",
 ["lube/heap.cpp", "lube/var.cpp", "lube/view.cpp"],
 [("Heap::resize, alloc", "lube/heap.cpp"), ("var::attach, array, resize", "lube/var.cpp")],
 technique=EXH + "every allocation failure point of every operation",
 note="All single-failure points of the listed operations, under ASan." + TRUST)

prop("C35", "BLAS and LAPACK wrappers",
 "The typed linear algebra wrappers give for row-major data what their definitions say: swap, copy, axpy, scal, dot, iamax, asum, gemm, banded and symmetric products, and eigenvalues with vectors satisfying A v = lambda v, for all element types they are declared for, changing only their outputs.",
 ["inputs"],
 "All sizes up to 4 (vectors up to 6) with coefficient sets from a small alphabet, all declared types.",
 "test-lapack calls them for one or two fixed matrices.",
 ["lube/clapack.cpp", "lube/c++blas.h", "lube/c++lapack.h", "lube/clapack.h"],
 [("blas:: and lapack:: templates", "lube/clapack.cpp")],
 technique=EXH + "all small sizes and coefficient choices against naive loops",
 note="Exhaustive within bounds; guard elements around every array." + TRUST)

prop("C36", "What a variable says of itself",
 "defined(), type(), atype(), their names, size(), view(), dim(), shape(), stride(), offset(), bounds(), key() and is() describe the value that a variable holds, the same for every way that it can be held (as itself, assigned, passed, moved, as element of an array or map, as a copy); indices, dimensions and positions are accepted exactly when they are within what is described, and asking changes nothing.",
 ["inputs", "histories"],
 "Single values and arrays of every type, maps, and views of all shapes of up to 4 dimensions with all small offsets, under 12 ways of holding them; histories of up to 4 operations that change the type. Also pairs of views of 11 shapes of one array.",
 "Tests print shapes of one or two arrays; the description must agree with the contents for every type, shape and holder.",
 ["lube/var.cpp", "lube/var.h", "lube/heap.cpp", "lube/view.cpp"],
 [("type, atype, shape, stride, bounds, is", "lube/var.cpp"), ("View", "lube/view.cpp"), ("typeStr", "lube/heap.cpp")],
 technique=EXH + "every type, shape and holder, and all short histories, against a description kept alongside",
 note="Exhaustive within bounds." + TRUST)

prop("C37", "Construction and literals",
 "A variable constructed from a literal, text (with or without a length), a list of strings, a buffer of typed values, an initialiser list, a size and a value, a shape and a value, or by the comma operator or append() holds exactly the values that were written, with their type and order: no more (nothing beyond the given length is read), no fewer, independent of the source; appending part of an array to that array included.",
 ["inputs", "histories"],
 "Single values of every type with extreme bit patterns; all strings to length 5 over an alphabet with zero bytes; all lengths around capacity; all initialiser lists of up to 4 items of every kind; all part-of-self appends of arrays up to 36 elements.",
 "Tests construct a handful of literals; the guarantee is for every length, type mixture and alias of the source.",
 ["lube/var.cpp", "lube/var.h", "lube/heap.cpp"],
 [("var constructors, append, operator ,", "lube/var.cpp"), ("Heap::append", "lube/heap.cpp")],
 technique=EXH + "all short literals, lists and aliased appends against what was written",
 note="Exhaustive within bounds; sources are of exactly the given length, so that reading beyond them is seen." + TRUST)

prop("C38", "Printed form of views, tensors, characters and complex numbers",
 "Whatever is not JSON prints, under any state of the stream, its elements all and once in row-major order, each as the stream prints such a number in the classic locale: a view of one dimension as a list, of two as a matrix by rows, of more with its shape and then its matrices in order; indented within arrays and maps; the same for a view with an offset as for a copy of it, and printing changes nothing.",
 ["inputs"],
 "All shapes of up to 4 dimensions of size up to 3 with offsets, for every element type, stream formats, and positions within arrays and maps. Also views of up to 100 in each direction.",
 "Tests print one or two matrices; the text depends on every dimension, the type, the format and the nesting.",
 ["lube/json.cpp", "lube/view.cpp"],
 [("JSON::formatView", "lube/json.cpp"), ("JSON::format", "lube/json.cpp")],
 technique=EXH + "every shape, type and stream format against text made by nested loops",
 note="Exhaustive within bounds." + TRUST)

prop("C39", "Timers report once the time for which they lived",
 "A timer prints, when and only when it is destroyed, one line with the name that it was given and the time for which it lived in milliseconds, whatever the order of destruction of several timers, the length of time, or how the scope is left; nothing else is printed.",
 ["histories"],
 "All histories of 6 operations (create, advance the clock by one of 8 steps from 0 to 40 days, destroy any) on up to 3 timers, with a clock under the harness's control; scopes left by return and by exceptions.",
 "Real time cannot be controlled in a unit test; here the clock is a choice like any other.",
 ["lube/var.cpp", "lube/var.h"],
 [("timer", "lube/var.cpp")],
 technique=EXH + "all short histories under a controlled clock",
 note="Exhaustive within bounds; the clock is interposed." + TRUST)

prop("C40", "An element of an array or map behaves as a variable of the same value",
 "Any operation on an element of an array, an entry of a map, an element within one of those, what at() gives, a value returned by a function, a key, or a number in a numeric array or a view, has the result, the error and the effect that it has on a variable that holds the same value. What it changes, it changes where the value is held, such that the name used and the place agree afterwards, and nothing beside that place changes; what doesn't change a variable doesn't change an element, whichever operand that is.",
 ["programs", "inputs"],
 "Every one of about 60 operations that read one value, 28 that read two, 55 that change one, and 25 that change one using another, for 22 values of every type and shape, held in every one of 10 ways, for each operand; differentially against the same operation on plain variables.",
 "Elements are references into storage that is shared and moved; each method has its own handling of them. A test would have to repeat every operation for every way of holding every kind of value.",
 ["lube/var.cpp", "lube/var.h", "lube/func.cpp", "lube/heap.cpp", "lube/math.cpp"],
 [("references", "lube/var.cpp"), ("functors", "lube/func.cpp")],
 technique=EXH + "all operations, values and ways of holding them, differentially",
 note="Exhaustive within the stated sets of operations and values. A single cdouble, which the library stores as an array, is taken to be the same as an element of an array of them." + TRUST)

prop("C41", "When the system cuts reading or writing short, that is reported and nothing is left open",
 "Each call that the text, ini, XML, GEDCOM, sound, path, graph and plot modules (and the configuration) make of the system can fail, transfer less than was asked, or be interrupted. Whatever that does, the operation either throws or has the result that it has without; if nothing failed for good, it does not throw. It never leaves a file, directory or pipe open, nor a child process; does not change the values that it was given; and can be repeated, on the same module, with the right result.",
 ["fault_sequences", "crash_points"],
 "15 operations of the modules, each for three sizes (nothing, less than a buffer, and several), with every one and every pair (up to 4 apart) of the calls to open, read, write, seek, close, list, popen and to send to a pipe going wrong in each of up to four ways.",
 "Tests cannot make the disk fail or a read be short; here every call of the system is a choice.",
 ["lube/txtfile.cpp", "lube/inifile.cpp", "lube/xmlfile.cpp", "lube/gedfile.cpp", "lube/sndfile.cpp", "lube/path.cpp", "lube/graph.cpp", "lube/gnuplot.cpp", "lube/config.cpp"],
 [("read and write", "lube/txtfile.cpp"), ("streams", "lube/stream.cpp")],
 technique=EXH + "fault injection at every system call of each operation, singly and in pairs",
 note="Exhaustive up to the stated number of calls of each operation. What libsndfile itself does not report while it closes is not made to fail." + TRUST)

prop("C42", "Variables behave as values in the containers and algorithms of the standard library",
 "A variable can be an element of the standard containers, a key of the ordered ones, captured by a function, moved, swapped and tied. Histories of operations on containers of variables leave in every element the value that the same history leaves in a container of ordinary values (where strings and arrays are shared by those copied from them, and only those); what is moved from is nil; algorithms that order, search, permute or remove give what they give for integers of the same order; and nothing leaks.",
 ["histories", "inputs"],
 "All histories of 5 operations of 17 kinds on two vectors, deques or lists of up to 4 variables; 23 groups of algorithms on all sequences of up to 5 of 3 values of 7 kinds. Also containers of up to 1025.",
 "What a container does to its elements (how often it copies, moves and assigns to what) depends on the history and the container; tests use one at most.",
 ["lube/var.cpp", "lube/var.h"],
 [("move and copy", "lube/var.cpp"), ("comparison", "lube/var.cpp")],
 technique=EXH + "all short histories against containers of a model value",
 note="Exhaustive within bounds. Views and references into arrays, which are written through when assigned to, are not put into containers." + TRUST)

prop("C43", "Operations do not depend on the history of the process",
 "An operation on values of its own gives the same result in a process that has just started as after any other operation, whether that one succeeded or failed for want of memory at any point, and whatever has been done in place to the values that the other took or gave. (Global configuration, and the contents of files, are as they were left.)",
 ["histories", "fault_sequences"],
 "All ordered pairs of some 210 operations of every kind, in a fresh process each, where all values of the first are changed in place before the second; each operation failing at each of its allocations the first time that it is ever used, and then repeated. Thorough: also all pairs without the change, and every failure of every operation followed by every other.",
 "Tests run each operation once in a fixed order, and change no result.",
 ["lube/xmlfile.cpp", "lube/gedfile.cpp", "lube/var.cpp", "lube/func.cpp", "lube/config.cpp", "lube/module.cpp"],
 [("Expat::element (static exemplar)", "lube/xmlfile.cpp"), ("GEDCOM::individual, family (static exemplars)", "lube/gedfile.cpp"), ("Cast<T>::scalar (static exemplar)", "lube/var.cpp"), ("static functor exemplars", "lube/math.cpp")],
 technique=EXH + "all pairs of operations and all first-use failures, each in a forked process, against the operation alone",
 note="Exhaustive over the table of operations." + TRUST)

def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=p["state"],
                             mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, nas = [], []
    for p in P:
        src = V + "/harness/props/" + p["id"].lower() + ".cpp"
        if "na" in p:
            nas.append(dict(property=p["id"], reason=p["na"]))
        elif not os.path.exists(src):
            nas.append(dict(property=p["id"], reason="check not built yet"))
        else:
            checks.append(dict(
                property=p["id"], quick_cmd="bin/check " + p["id"],
                thorough_cmd="bin/check " + p["id"] + " --tier thorough",
                evidence_file="evidence/" + p["id"] + ".json",
                technique=p["technique"], level=p["level"], level_note=p["note"]))
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(dict(version=1, setup_cmd="bin/setup",
                       hooks=dict(guard="none", enable="no hooks are needed: the checks build the unmodified sources with -fsanitize=address in /verif/build", source_commits=[]),
                       checks=checks, not_applicable=nas,
                       notes="Harnesses use only the library's public headers; see DESIGN.md."),
                  f, indent=1)
        f.write("\n")
main()
