import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","The stored complex is exactly the Vietoris-Rips complex of the points",
"After every point has been inserted and the complex has been expanded to the configured dimension, the listed simplices are exactly the sets of at most dimension+1 points that are pairwise within the distance limit (strictly closer in the two tree storages, not farther in the list storage), each listed once. Every simplex carries its diameter (its longest edge, 0 for a vertex), and within a dimension the simplices come in order of increasing diameter.",
["inputs","configurations"],"every point cloud or upper triangular distance matrix (duplicates, ties, edges exactly at the limit, the empty and the single point set included), every limit, dimension and storage type",
"The tests insert one fixed list of points and compare a few counts; exactness over all distance patterns, ties and limits is a statement over every input, and the three storages use three unrelated constructions.",
["Complex/simplexTree.cpp","Complex/indSimplexTree.cpp","Complex/simplexArrayList.cpp","Complex/simplexBase.cpp","Pipes/neighGraphPipe.cpp","Pipes/ripsPipe.cpp"],
[("incremental insertion into the tree","Complex/simplexTree.cpp insert, recurseInsert"),("indexed tree insertion","Complex/indSimplexTree.cpp insert, recurseInsert"),("edge list and clique expansion","Complex/simplexArrayList.cpp insert, expandDimensions"),("listing ordered by weight","Complex/*.cpp getAllEdges")],
["the listing and the counts returned by the storage's public query functions"])

p("C02","A storage answers from the points inserted since it was last emptied",
"Whatever the order of insertions, expansions, queries and clearings, every query (full listing, one dimension's simplices, membership where it is offered, simplex and vertex counts) answers for exactly the points inserted since the last clearing. Queries change nothing, repeated queries agree, and a cleared storage behaves like a new one.",
["histories"],"every sequence of insert, expand, query, count and clear operations on one storage object, for every distance matrix",
"The tests run one fixed sequence per storage; caches and counters that go stale only show in sequences where a query precedes an insertion or a clearing precedes reuse.",
["Complex/simplexTree.cpp","Complex/indSimplexTree.cpp","Complex/simplexArrayList.cpp","Complex/simplexBase.cpp"],
[("cached sorted listing","Complex/simplexTree.cpp, Complex/indSimplexTree.cpp isSorted"),("counters","simplexCount, vertexCount, nodeCount"),("release of the complex","clear in simplexTree.cpp and simplexArrayList.cpp")],
["answers of the public query functions after each operation"])

p("C03","Connected components: dimension 0 intervals are exact for every input",
"The dimension 0 intervals are exactly one interval from 0 to w for every minimum spanning forest edge of weight w of the graph of point pairs within the limit, plus one interval from 0 to the limit for every connected component of that graph. Hence their number is the number of points, and at every threshold the number of intervals alive is the number of components.",
["inputs","configurations"],"every point cloud or distance matrix, limit, dimension and storage",
"Tests compare one sample output; wrong merges depend on the order and ties of distances and on disconnected inputs, over all inputs.",
["Pipes/fastPersistence.cpp","Pipes/fastPersistence.hpp"],
[("union-find over edges in weight order","Pipes/fastPersistence.cpp runPipe"),("components left at the limit","Pipes/fastPersistence.cpp runPipe")],
["the barcode text produced by the persistence stage"])

p("C04","Loops and voids: higher intervals are the persistent homology of the data",
"For every dimension d from 1 to one below the configured one, the reported intervals are exactly the classes of the Vietoris-Rips filtration over GF(2) that are born at one diameter and die at a larger one within the limit, each with that birth and death and its multiplicity, and intervals of length zero are not reported. No class that is still alive at the limit is reported as finite, and no interval has its death before its birth.",
["inputs","configurations"],"every point cloud or distance matrix (ties included), limit, dimension and storage",
"The tests' samples have few or no higher classes; correctness of the reduction and of its pairing holds or fails over all filtrations, in particular with ties and several simultaneous classes.",
["Pipes/fastPersistence.cpp","Complex/simplexTree.cpp","Complex/indSimplexTree.cpp","Complex/simplexArrayList.cpp"],
[("coboundary/boundary column reduction with pivot ownership","Pipes/fastPersistence.cpp runPipe"),("clearing of known negative simplices","Pipes/fastPersistence.cpp runPipe")],
["the barcode text produced by the persistence stage"])

p("C05","The barcode depends on the metric only, not on its presentation",
"Permuting the points, translating, reflecting or coordinate-permuting them, choosing another storage (when no distance equals the limit), or scaling the points and the limit together leaves the multiset of intervals unchanged up to the same scaling. Raising the configured dimension leaves the intervals of the lower dimensions unchanged.",
["inputs","configurations"],"every input together with every such transformation and every pair of configurations",
"It relates two runs; the tests only look at single runs.",
["Pipes/fastPersistence.cpp","Pipes/distMatrixPipe.cpp","Complex/simplexTree.cpp","Complex/indSimplexTree.cpp","Complex/simplexArrayList.cpp"],
[("tie handling in the filtration order","Pipes/fastPersistence.cpp, Complex/*.cpp getAllEdges"),("distance computation","Utils/utils.cpp vectors_distance")],
["barcode texts of both runs"])

p("C06","The interval table mirrors the barcode and cites real witnesses",
"The interval table handed on with the results contains exactly the intervals of the textual barcode with the same multiplicities. The points cited for an interval are existing points: those of a dimension 0 interval with a finite end lie on an edge whose length is that end, those of a surviving component are none, and those of a higher interval contain a simplex of the interval's dimension whose diameter is the birth.",
["inputs","configurations"],"every point cloud or distance matrix, limit, dimension and storage",
"No test reads the table; agreement of two outputs over all inputs needs every branch that emits an interval to emit it twice.",
["Pipes/fastPersistence.cpp","Pipes/pipePacket.hpp"],
[("table entries next to the text entries","Pipes/fastPersistence.cpp runPipe"),("witness collection","Pipes/fastPersistence.cpp runPipe")],
["the interval table in the result packet"])

p("C07","The command line program writes the barcode of its input file",
"Run on a data file in its standard mode the program ends normally and leaves, in the output file named by the user, a header and exactly the intervals of the Vietoris-Rips filtration of the points in the file for the given limit and dimension, and a statistics file with one row per pipeline stage. Options may be given in short or long form and in any order with the same result.",
["inputs","configurations"],"every readable input file and every combination of limit, dimension, storage and option spelling",
"No stable test runs the program end to end and checks the file it writes.",
["LHFmain/main.cpp","Utils/argParser.cpp","Utils/readInput.cpp","Utils/writeOutput.cpp","Pipes/basePipe.cpp"],
[("option parsing and pipeline assembly","Utils/argParser.cpp parse, setPipeline"),("driving the stages","LHFmain/main.cpp processDataWrapper, runPipeline"),("writing results","LHFmain/main.cpp outputBettis, Utils/writeOutput.cpp")],
["the files left by the program and its exit status"])

p("C08","Distance matrix and filtration values are the Euclidean distances",
"For every cloud the distance stage produces the matrix whose entry above the diagonal is the Euclidean distance of the two points, with zeros elsewhere, and the set of filtration values that consists of 0, the limit, and every distance strictly below the limit and nothing else. The neighbourhood stage inserts every non-empty point once, in order.",
["inputs","configurations"],"every point cloud of any dimension and every limit",
"The tests feed one 3-point sample and look at no entry.",
["Pipes/distMatrixPipe.cpp","Pipes/neighGraphPipe.cpp","Utils/utils.cpp"],
[("pairwise loop","Pipes/distMatrixPipe.cpp runPipe"),("distance","Utils/utils.cpp vectors_distance"),("insertion loop","Pipes/neighGraphPipe.cpp runPipe")],
["matrix and value set in the packet after the stage; number of vertices after the neighbourhood stage"])

p("C09","Reading a file yields its numbers, row by row, in all three readers",
"The comma separated reader returns one row per line that holds numbers, in order, with the numbers of that line in order, whatever the line endings, blanks, blank lines or trailing commas; the streaming reader returns the same rows one at a time and then reports the end. The matrix reader returns the file's values arranged in the rows and columns stated in its header.",
["inputs"],"every text file of numbers: any number of rows and columns, line endings, long lines, missing final newline, empty lines; and a missing file",
"The tests read two well-formed files of the repository.",
["Utils/readInput.cpp","Utils/readInput.hpp"],
[("line splitting","Utils/readInput.cpp readCSV, parseDoubleVector"),("buffered streaming","Utils/readInput.cpp streamInit, streamRead"),("matrix header","Utils/readInput.cpp readMAT")],
["the returned rows"])

p("C10","Writing results and reading them back loses nothing",
"The comma separated and matrix writers produce files that hold every row and every value (to six decimals) of the data in order, so that the corresponding reader returns the same data; the statistics, barcode and console writers put out exactly the text they are given under the given name with its extension and header. A later write replaces the file.",
["inputs","histories"],"every table of numbers (empty tables and single cells included) and every text",
"The tests only check that the functions return true.",
["Utils/writeOutput.cpp","Utils/readInput.cpp"],
[("writers","Utils/writeOutput.cpp writeCSV, writeMAT, writeStats, writeBarcodes")],
["the written files"])

p("C11","Options always resolve to the documented configuration",
"The arguments are read in pairs: every pair of a long or short option name and a value sets that option, in any order (the short name wins if both are given), a pair that does not start with an option or a last option without a value changes nothing, and every option that is not given keeps its built-in default. The mode then determines the pipeline, the preprocessor and the storage exactly as documented, with an explicitly given pipeline or preprocessor taking precedence where the mode allows it.",
["inputs","configurations"],"every argument list and every mode",
"The tests call the parser with one argument list; precedence and defaults are properties of all combinations.",
["Utils/argParser.cpp","Utils/argParser.hpp"],
[("name tables and defaults","Utils/argParser.cpp parse"),("mode table","Utils/argParser.cpp setPipeline")],
["the resulting option map"])

p("C12","Partitioning keeps every point exactly once and maps it back",
"Separating data by label puts every point into the partition of its label exactly once, in input order, with a parallel list of original positions; separating by radius gives each centroid exactly the points closer to it than the radius, in input order with their positions. The radius used covers every point from its centroid, nearest-distance lists are the distances to each reference, and mapping interval witnesses back through a partition's positions yields the original positions.",
["inputs"],"every data set, labelling, set of centroids and radius, including empty partitions",
"The tests do not call these functions.",
["Utils/utils.cpp","Utils/utils.hpp"],
[("label partition","Utils/utils.cpp separatePartitions(int,...)"),("radius partition","Utils/utils.cpp separatePartitions(double,...)"),("radius","Utils/utils.cpp computeMaxRadius"),("index mapping","Utils/utils.cpp mapPartitionIndexing, separateBoundaryPartitions")],
["returned partitions, positions and tables"])

p("C13","k-means: every point gets a label and centroids are the means of their points",
"For every nonempty data set and positive cluster count the preprocessor picks distinct data points as seeds - as many as requested, or as there are distinct points - and ends with one label in range for every point, every centroid with points being the mean of exactly the points carrying its label. A centroid without points stays where it was, so every centroid is finite and within the range of the data. The result is that of alternating nearest assignment and averaging from the seeds until the labels stop changing or the iteration limit is reached; once settled, every point carries the label of a nearest centroid.",
["inputs","configurations"],"every data set (duplicates, fewer distinct points than clusters), cluster count, iteration limit and random choice of seeds",
"The algorithm is randomised and the tests check only that it can be configured.",
["Preprocessing/kMeansPlusPlus.cpp","Preprocessing/preprocessor.cpp"],
[("seeding","Preprocessing/kMeansPlusPlus.cpp runPreprocessor"),("assignment and update","Preprocessing/kMeansPlusPlus.cpp runPreprocessor")],
["centroids, labels and data in the packet afterwards"])

p("C14","k-d tree queries equal exhaustive search",
"For every set of points, a neighbourhood query returns exactly the positions of the points within the radius (boundary included), each once, and a nearest query returns a point at the least distance. The answer does not depend on the order in which the points were given.",
["inputs"],"every point set (duplicates, collinear and equal coordinates, any dimension), query point and radius",
"The tests do not query the tree; pruning errors appear for particular geometries only.",
["Preprocessing/kdTree.cpp","Preprocessing/kdTree.hpp"],
[("median split","Preprocessing/kdTree.cpp makeTree"),("pruned search","Preprocessing/kdTree.cpp neighborhood, nearest")],
["positions returned by the public queries"])

p("C15","DBSCAN labels are the density-based clusters",
"Two core points (points with at least the required number of points within the radius) carry the same positive label exactly if they are connected through core points within the radius of each other; a non-core point within the radius of a core point carries the label of one such core point, and every other point is marked noise. Every point is labelled and labels are numbered from 1 without gaps.",
["inputs","configurations"],"every data set, radius and density threshold, and every order of the points",
"The tests do not run the clustering on its own; reachability is a global property of the input.",
["Preprocessing/dbscan.cpp","Preprocessing/kdTree.cpp"],
[("cluster growth","Preprocessing/dbscan.cpp cluster, expandCluster"),("neighbourhood search","Preprocessing/kdTree.cpp neighborhoodIndices")],
["the returned labels"])

p("C16","Sliding window statistics stay exact along the stream",
"After every point of the stream the window holds at most its maximum number of points, its keys, labels, distances and nearest-neighbour records describe exactly the points it contains, and each partition's count and mean nearest-neighbour distance equal the values recomputed from scratch. A new point is admitted, given a partition, and an old point evicted only as the documented distance rules say.",
["histories","inputs"],"every stream of points and window size, at every point of the stream",
"The tests run one stream and check nothing but termination; incremental statistics can drift only after particular sequences of admissions and evictions across partitions.",
["Pipes/slidingWindow.cpp","Pipes/slidingWindow.hpp"],
[("admission rules","Pipes/slidingWindow.cpp nnBasedEvaluator"),("eviction","Pipes/slidingWindow.cpp deleteNNstats"),("incremental update","Pipes/slidingWindow.cpp updateStats")],
["window records after the stream has been consumed up to each prefix"],
[("window records","keys, partition labels, nearest neighbours, partition means, distance matrix","Pipes/slidingWindow.hpp EvalParams")])

p("C17","The naive window is the last points of the stream, in order",
"After a stream has been consumed, the points handed on by the plain window are exactly the last fifty points, in stream order, as of the last reporting point, and a stream shorter than the window never starts a complex. The initial complex is the complex of the first full window.",
["histories","inputs"],"every stream length and contents",
"The tests check only that the stage runs on one file.",
["Pipes/naiveWindow.cpp","Utils/readInput.cpp"],
[("first in first out window","Pipes/naiveWindow.cpp runPipe"),("initial complex","Pipes/naiveWindow.cpp runComplexInitializer")],
["points and complex in the packet after the stage"])

p("C18","Micro-clusters are the decayed mean, weight and spread of their points",
"After any sequence of timed insertions a micro-cluster's weight is the sum of its points' weights decayed to the time of the query, its centre is their weighted mean and its radius their weighted standard deviation, and the radius predicted for a candidate equals the radius after inserting it. The density stream preprocessor returns the centres of the clusters whose weight survived its pruning rules, and points are merged only into the nearest cluster and only if the merged radius stays within the limit.",
["histories","inputs"],"every sequence of points and times, and every stream of points",
"The tests do not run the stream preprocessor on data; the recurrences are inductive over the whole history.",
["Preprocessing/denStream.cpp","Preprocessing/denStream.hpp"],
[("incremental moments with decay","Preprocessing/denStream.cpp microCluster"),("merge, promotion and pruning","Preprocessing/denStream.cpp merging, runPreprocessor")],
["accessors of a micro-cluster; centres returned by the preprocessor"])

p("C19","The set helpers compute exact set operations",
"Intersection, union, symmetric difference and subset generation on sorted vertex sets return exactly the mathematical result, sorted and free of duplicates, and do not change their arguments. The pairwise intersection test returns the symmetric difference and the union exactly if the sets differ in two vertices and otherwise nothing.",
["inputs"],"every pair of vertex sets, sorted or not where the function allows it, the empty and equal sets included",
"The tests call some of them on one pair of sets.",
["Utils/utils.cpp","Utils/utils.hpp"],
[("merging scans","Utils/utils.cpp setIntersect, symmetricDiff, setUnion, setXOR, intersect"),("subsets","Utils/utils.cpp getSubsets")],
["returned vectors and pairs"])

p("C20","Matrix reduction finds rank and nullity over GF(2)",
"For every 0/1 matrix the rank routine returns the rows at which the rank over GF(2) of the leading rows grows, and the boundary matrix reduction returns the rank, the nullity of the columns and a matrix with the same row space. Reducing the boundary matrix of two families of simplices gives the rank and nullity of their incidence relation.",
["inputs"],"every 0/1 matrix, the empty matrix and zero rows and columns included",
"The tests do not call these routines on matrices with known rank.",
["Pipes/persistencePairs.cpp","Pipes/boundaryPipe.cpp"],
[("row reduction","Pipes/persistencePairs.cpp getRankNull"),("boundary matrix reduction","Pipes/boundaryPipe.cpp reduceBoundaryMatrix")],
["returned sets and pairs"])

p("C21","Stages run as configured, once each, and record what they did",
"Every documented stage and preprocessor name gives the corresponding component and every other name gives none; a component that lacks a required option refuses its configuration and then passes its input through unchanged. A configured stage transforms the packet once and appends exactly one statistics row with its name and the counts of the complex, and the transformed data do not depend on whether debugging is on.",
["configurations","histories"],"every stage name, subset of options and order of stages",
"The tests configure each stage once with all options or none.",
["Pipes/basePipe.cpp","Pipes/pipePacket.hpp","Preprocessing/preprocessor.cpp","Complex/simplexBase.cpp"],
[("factories","Pipes/basePipe.cpp newPipe, Preprocessing/preprocessor.cpp newPreprocessor, Complex/simplexBase.cpp newSimplex"),("wrapper","Pipes/basePipe.cpp runPipeWrapper")],
["the factory results, the packet and its statistics"])

p("C22","Reduced mode covers the data and reports original positions",
"In reduced mode the program clusters the points, computes the barcode of the centroids and of each centroid's neighbourhood within twice the covering radius, and ends normally whatever the data. The barcode file is the barcode of the centroids it returned, every interval of every partition's barcode appears in the merged table exactly once with witnesses that are positions of original points, and the centroid intervals follow.",
["inputs","configurations"],"every data set, cluster count, limit and dimension, and every outcome of the random seeding",
"No stable test runs this mode to completion and reads its outputs; the seeding is random.",
["LHFmain/main.cpp","Utils/utils.cpp","Preprocessing/kMeansPlusPlus.cpp"],
[("reduced branch","LHFmain/main.cpp main"),("partition and mapping","Utils/utils.cpp separatePartitions, mapPartitionIndexing")],
["centroid, label and barcode files and the printed table"])

p("C23","The alternative persistence stage agrees with the fast one",
"On the tree and list storages the alternative persistence stage reports exactly the dimension 0 intervals and the finite higher intervals that the definition of persistent homology gives, leaving out those of length zero, and it reports each higher class that is still alive at the limit exactly once, from its birth to the limit. It ends normally for every complex, including one without edges.",
["inputs","configurations"],"every point cloud or distance matrix, limit, dimension and both storages",
"The tests do not look at its output; two independent algorithms agreeing over all inputs cannot be sampled by one.",
["Pipes/persistencePairs.cpp","Pipes/persistencePairs.hpp"],
[("pair reduction","Pipes/persistencePairs.cpp computeIntervals"),("rank of boundary rows","Pipes/persistencePairs.cpp getRankNull")],
["the barcode text produced by the stage"])

p("C24","Debugging leaves each stage's output on disk, and only debugging does",
"With debugging on, every configured stage that runs leaves a file in the output folder that holds exactly what that run of the stage produced, and with debugging off the stages leave none; preprocessors always leave their centroids and labels. The configured log gets a line for every stage that runs and debug lines only when debugging is on, and nothing is written to any other log.",
["configurations","histories"],"every sequence of stages and preprocessors, storage, and debug setting, on every cloud",
"No stable test reads these files; which ones appear depends on the whole sequence of stages and options.",
["Pipes/basePipe.cpp","Preprocessing/preprocessor.cpp","Utils/utils.cpp","Pipes/*.cpp outputData"],
[("wrapper","Pipes/basePipe.cpp runPipeWrapper"),("log","Utils/utils.cpp writeLog, writeDebug"),("storage debug","Complex/simplexBase.cpp setConfig")],
["the files in the output folder and the log"])

p("C25","Windows of a stream are reported at the documented points",
"The sliding window reports the window it maintains after every hundredth point beyond the first full window, and once more at the end of a stream that does not end on such a point, in files numbered from zero in order. Every report holds exactly the points of the window handed on at that moment, with debugging on each comes with the barcode of the maintained complex, and a stream that never fills the window leaves no report.",
["inputs","histories"],"every stream (length, content, dimension), window size and limit",
"The tests feed one stream and never look at the reports; which windows are reported depends on the whole history.",
["Pipes/slidingWindow.cpp","Pipes/slidingWindow.hpp"],
[("reporting","Pipes/slidingWindow.cpp runPipe, runSubPipeline, outputData")],
["the numbered window and barcode files in the output folder"])

p("C26","Preprocessed, windowed and upscaling runs leave their documented results",
"With a preprocessor the program writes the barcode of the centroids it left; in the window modes it feeds itself the stream from the file and leaves one statistics row per stage with the counts of the complex of the first full window, an empty barcode table and (sliding) the reports of full windows of stream points; in the upscaling mode it partitions all points by their labels, prints the sizes of the parts and writes no barcode. Every such run prints the configuration it uses and ends normally, whatever the data.",
["inputs","configurations"],"every data set or stream, spelling and combination of options",
"No stable test runs the program in these modes; which way it goes depends on the combination of several options.",
["LHFmain/main.cpp","Utils/argParser.cpp","Pipes/slidingWindow.cpp","Pipes/naiveWindow.cpp"],
[("dispatch","LHFmain/main.cpp main, processDataWrapper, processUpscaleWrapper"),("partitions by label","Utils/utils.cpp separatePartitions"),("modes","Utils/argParser.cpp setPipeline")],
["exit status, printed configuration and partition sizes, output files"])

with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
